-------------------------------- MODULE VSTrace --------------------------------
(* Judges recorded choices of lib/find-visualstudio.js.                       *)
EXTENDS VisualStudio, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Fields == {"found", "version", "major", "minor", "year", "path", "msBuild", "toolset", "sdk"}
Clauses(W) == LET c == Choose(W) IN
    IF c.found # W.res.found THEN << IF c.found THEN "not found: " \o ToString(c) ELSE "should not be found: " \o ToString(W.res) >>
    ELSE IF ~c.found THEN <<>>
    ELSE Flat([f \in 1..9 |-> LET n == <<"found", "version", "major", "minor", "year", "path", "msBuild", "toolset", "sdk">>[f] IN
               IF c[n] = W.res[n] THEN <<>> ELSE <<n \o " expected " \o ToString(c[n]) \o " got " \o ToString(W.res[n])>>])
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
