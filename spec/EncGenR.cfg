CONSTANTS Flavours = {"c", "p"}
 BufSizes = {0,9,20,33,48,57,64,77,90,100,120,132,140,150,160,170,200,250,300,400,600,1000,3000}
 DictSteps = {0,1,2,6}
 Kinds = {0,1,2,3,4,5,6}
 Vals = {0,1,2,5,8,9,30,100,600}
 Threads = {0,1,15,16,255,256,70000}
 Chunks = {0,10,16,40,100,500,2000,4000}
 Ckpts = {0,10,31,32,33,34,40,100,200,400}
 MaxOps = 60
 MinOps = 20
 MaxMsgsAtOnce = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
