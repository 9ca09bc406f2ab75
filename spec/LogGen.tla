------------------------------- MODULE LogGen -------------------------------
(* Generates well-formed log files: every layout up to MaxParts over the given alphabets (model checking) or  *)
(* random longer ones (simulation).  Complete layouts are printed for materialisation with the real encoder. *)
EXTENDS LogFile, TLC, Json
CONSTANTS MaxParts, MaxExec,
          Dicts,          \* sizes of complete dictionaries (0: none)
          Frags,          \* sizes of dictionary fragments
          Threads, Flags, Sites, Times, MaxMsgs, Pads,
          Bulk,           \* lengths of long extents
          MinParts        \* shortest layout worth printing
VARIABLES parts, sites, execs, done
gv == <<parts, sites, execs, done>>
Init == \E n \in Dicts : parts = <<[k |-> "ck", n |-> n]>> /\ sites = n /\ execs = 1 /\ done = FALSE
More == ~done /\ Len(parts) < MaxParts
Last == parts[Len(parts)]
Ck == /\ More /\ execs < MaxExec
      /\ \E n \in Dicts : parts' = Append(parts, [k |-> "ck", n |-> n]) /\ sites' = n
      /\ execs' = execs + 1 /\ UNCHANGED done
Dic == /\ More /\ \E n \in Frags : parts' = Append(parts, [k |-> "dic", n |-> n]) /\ sites' = sites + n
       /\ UNCHANGED <<execs, done>>
Pad == /\ More /\ Last.k # "pad" /\ \E n \in Pads : parts' = Append(parts, [k |-> "pad", n |-> n])
       /\ UNCHANGED <<sites, execs, done>>
Usable == {s \in Sites : s < sites}
Ext == /\ More
       /\ \E t \in Threads, w \in Flags, n \in 0..MaxMsgs :
            \E f \in [1..n -> Usable \X Times] : parts' = Append(parts, [k |-> "ext", t |-> t, w |-> w, m |-> f])
       /\ UNCHANGED <<sites, execs, done>>
Nth(S, i) == LET RECURSIVE K(_, _) K(T, k) == LET m == CHOOSE x \in T : \A y \in T : x <= y IN IF k = 0 THEN m ELSE K(T \ {m}, k - 1)
             IN K(S, i % Cardinality(S))
LongExt == /\ More /\ Usable # {}
           /\ \E t \in Threads, w \in Flags, n \in Bulk, a \in 1..3, x \in 0..1 :      \* x = 1: filled to the largest size
                parts' = Append(parts, [k |-> "ext", t |-> t, w |-> w, x |-> x, m |-> [i \in 1..n |-> <<Nth(Usable, a * i), (i * (a + 4)) % 1009>>]])
           /\ UNCHANGED <<sites, execs, done>>
Stop == /\ ~done /\ Len(parts) >= MinParts /\ done' = TRUE /\ PrintT(ToJson(parts)) /\ UNCHANGED <<parts, sites, execs>>
Next == Ck \/ Dic \/ Pad \/ Ext \/ LongExt \/ Stop
GenOk == WellFormed(parts)
=============================================================================
