------------------------------- MODULE MCImpl -------------------------------
(* Instances of NanoLogImpl for TLC *)
EXTENDS NanoLogImpl
L(s) == <<"log", s>>
S == <<"sync">>
J(t) == <<"join", t>>
F(f) == <<"switch", f>>
\* two producers, concurrent syncs, a short-lived thread
ProgSync == (0 :> <<L(1), S>>) @@ (1 :> <<L(1), S>>) @@ (2 :> <<L(2)>>)
\* exits without sync; deletion during the scan
ProgExit == (0 :> <<L(1), J(1), J(2)>>) @@ (1 :> <<L(1)>>) @@ (2 :> <<L(2), L(1)>>)
\* full buffers
ProgFull == (0 :> <<L(1), L(2), L(1), J(1)>>) @@ (1 :> <<L(2), L(2), L(1)>>)
\* switching files
ProgSwitch == (0 :> <<L(1), F("f1"), L(1), L(2), J(1), F("f2"), L(1)>>) @@ (1 :> <<L(2)>>)
ProgBig == (0 :> <<L(1), S, L(2), J(1), S>>) @@ (1 :> <<L(1), L(2), S>>) @@ (2 :> <<L(2), S>>)
\* small instances (quick tier)
ProgSyncS == (0 :> <<L(1), S>>) @@ (1 :> <<L(1), S>>)
ProgExitS == (0 :> <<J(1)>>) @@ (1 :> <<L(1)>>) @@ (2 :> <<L(1)>>)
ProgFullS == (0 :> <<L(1)>>) @@ (1 :> <<L(2), L(2), L(1)>>)
ProgSwitchS == (0 :> <<L(1), F("f1"), L(1), F("compressedLog"), L(1)>>)
=============================================================================
