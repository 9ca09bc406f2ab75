------------------------------ MODULE SourceGen ------------------------------
(* Generates programs (TLC simulation); checks that the statements found in  *)
(* their texts are the intended ones.                                        *)
EXTENDS Source, Json
CONSTANTS NMain, NHdr, NOther, Forms
VARIABLE prog
Names == <<"prog.cc", "prog.cc", "p@g.cc", "p`q^r.cc", "a b/prog.cc">>
S == [l : 1..4, o : Forms, y : 1..Len(Layouts), f : 1..Len(Formats)]
Rand(i) == [c |-> RandomElement(1..Len(Contexts)), s |-> <<RandomElement(S), RandomElement(S)>>]
Init == prog = <<>>
Next == /\ prog = <<>>
        /\ \E f \in {RandomElement(1..Len(Names))} :
           \E m \in {[i \in 1..NMain |-> Rand(i)]}, h \in {[i \in 1..NHdr |-> Rand(i)]}, o \in {[i \in 1..NOther |-> Rand(i)]} :
              /\ prog' = [file |-> Names[f], main |-> m, hdr |-> h, other |-> o]
              /\ PrintT(ToJson([g |-> prog', files |-> Files(prog')]))
Spec == Init /\ [][Next]_prog
Reads == prog = <<>> \/ Consistent(prog)
=============================================================================
