------------------------------ MODULE PythonTrace ------------------------------
(* Judges recorded searches of lib/find-python.js.                            *)
EXTENDS Python, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
Clauses(W) ==
    LET s == Search(W, Candidates(W), <<>>) IN
    \* real programs that are not there cannot note that they were run
    LET want == IF W.real THEN SelectSeq(s.ran, LAMBDA x : InSeq(x.prog, W.scripts)) ELSE s.ran IN
    Sel(W.ran # want, "programs expected " \o ToString(want) \o " got " \o ToString(W.ran))
    \o Sel(W.found # s.found \/ (s.found /\ W.path # s.path), "result expected " \o ToString(<<s.found, s.path>>) \o " got " \o ToString(<<W.found, W.path>>))
    \o Sel(W.atonce > 1, "candidates tried at the same time")
    \o Sel(W.places_ # <<>> /\ W.places_ # Places(W.penv), "places expected " \o ToString(Places(W.penv)) \o " got " \o ToString(W.places_))
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
