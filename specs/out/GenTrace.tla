------------------------------ MODULE GenTrace ------------------------------
(* Judges generations of the same project (G09): outputs are a function of the *)
(* inputs. A record is                                                         *)
(*   runs  <<[how, rc, files <<[p, h]>>, touched <<p>>, changed <<p>>], ...>>  *)
(* how: what was special about the run. Runs "again" write over the files of   *)
(* an earlier run: touched are files with another time or identity, changed    *)
(* those with another content. careful: files whose writer promises to leave   *)
(* them alone when equal.                                                      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RangeOf(s) == { s[j] : j \in 1..Len(s) }
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
Paths(r) == { r.files[j].p : j \in 1..Len(r.files) }
Hash(r, p) == r.files[CHOOSE j \in 1..Len(r.files) : r.files[j].p = p].h
Differ(a, b) == { p \in Paths(a) \cup Paths(b) : IF p \in Paths(a) /\ p \in Paths(b) THEN Hash(a, p) # Hash(b, p) ELSE TRUE }
One(first, r, careful) ==
    Sel(r.rc # first.rc, r.how \o ": ends differently")
    \o (LET d == Differ(first, r) IN Sel(r.rc = 0 /\ first.rc = 0 /\ d # {}, r.how \o ": other content in " \o ToString(d)))
    \o (LET t == (RangeOf(r.touched) \ RangeOf(r.changed)) \cap RangeOf(careful) IN Sel(t # {}, r.how \o ": touched though the same " \o ToString(t)))
RECURSIVE All(_, _)
All(c, n) == IF n > Len(c.runs) THEN <<>> ELSE One(c.runs[1], c.runs[n], c.careful) \o All(c, n + 1)
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == All(Cases[i + 1], 2) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(c, " ;; ")))
=============================================================================
