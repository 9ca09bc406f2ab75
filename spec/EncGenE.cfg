CONSTANTS Flavours = {"c", "p"}
 BufSizes = {0,1,7,8,9,10,30,40,47,48,49,50,56,57,58,60,61,70,80,92,93,94,100,105,106,130,150,165,170,240,262}
 DictSteps = {6}
 Kinds = {0,6}
 Vals = {0,1}
 Threads = {15,16,70000}
 Chunks = {4000}
 Ckpts = {}
 MaxOps = 5
 MinOps = 5
 MaxMsgsAtOnce = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
