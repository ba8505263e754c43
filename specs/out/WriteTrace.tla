----------------------------- MODULE WriteTrace -----------------------------
(* Judges recorded runs of the write-if-changed writer (G09). A record is      *)
(*   old, new  contents (or Absent), t the file's name                         *)
(*   ev        its system calls in order, as far as they were done             *)
(*   end       "ok", "error" or "killed"; fault: some call was made to fail    *)
(*   final     content found afterwards, kept: neither replaced nor written    *)
EXTENDS FileState, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
\* calls after which the file is neither the old nor the new
RECURSIVE Broken(_, _, _)
Broken(c, f, n) == IF n > Len(c.ev) THEN <<>>
                   ELSE LET g == Do(f, c.ev[n]) IN
                        IF Get(g, c.t) \notin {c.old, c.new} THEN <<n>> ELSE Broken(c, g, n + 1)
Judge(c) ==
    LET b == Broken(c, [p \in {c.t} |-> c.old], 1)
    IN  Sel(b # <<>>, "a crash after call " \o ToString(b) \o " leaves neither the old nor the new content")
        \o Sel(c.final \notin {c.old, c.new}, "the file holds neither the old nor the new content")
        \o Sel(c.end = "ok" /\ c.final # c.new, "reported as written but is not")
        \o Sel(~c.fault /\ c.end # "ok", "fails without a fault")
        \o Sel(~c.fault /\ c.end = "ok" /\ c.old = c.new /\ ~c.kept, "touched though its content is the same")
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Judge(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(c, " ;; ")))
=============================================================================
