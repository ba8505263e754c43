---------------------------- MODULE BuildHistory ----------------------------
(* Judges recorded histories of edits and builds (G12). A record is           *)
(*   h  <<[kind, src, full, fullok, ran, rc, outs, scratch], ...>>            *)
(*     kind "build", "stopped" (interrupted)                                  *)
(*     src  content of every file that no step makes   <<[p, h]>>             *)
(*     full steps of a build from scratch of this state <<[o, cmd, r, w]>>    *)
(*     ran  what the build ran, in order of start <<[o, cmd, r, w, h, s, e,   *)
(*          rc]>>, h the contents of w                                        *)
(*     outs, scratch  contents of the made files after the build and after    *)
(*          the build from scratch                                            *)
EXTENDS Incremental, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
RangeOf(sq) == { sq[j] : j \in 1..Len(sq) }
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

AsSteps(full) ==
    LET ids == { full[j].o : j \in 1..Len(full) }
        at(o) == full[CHOOSE j \in 1..Len(full) : full[j].o = o]
    IN  [o \in ids |-> [cmd |-> at(o).cmd, writes |-> RangeOf(at(o).w), deps |-> RangeOf(at(o).deps)]]
Files(src) == [p \in { src[j].p : j \in 1..Len(src) } |-> src[CHOOSE j \in 1..Len(src) : src[j].p = p].h]
Differ(a, b) == { p \in DOMAIN a \cup DOMAIN b : IF p \in DOMAIN a /\ p \in DOMAIN b THEN a[p] # b[p] ELSE TRUE }

\* state of the history: known, and steps a failed or stopped build may have left to be done again
Start == [known |-> NoKnown, maybe |-> {}]

Judge(st, b, n) ==
    LET want == AsSteps(b.full)
        files == Files(b.src)
        now == [o \in DOMAIN st.known |-> [cmd |-> st.known[o].cmd, writes |-> st.known[o].writes, deps |-> {}]]
        ids == [j \in 1..Len(b.ran) |-> b.ran[j].o]
        set == RangeOf(ids)
        done == { j \in 1..Len(b.ran) : b.ran[j].rc = 0 }
        doneIds == { ids[j] : j \in done }
        ran == [o \in doneIds |-> LET x == b.ran[CHOOSE j \in done : ids[j] = o] IN
                   [cmd |-> x.cmd, reads |-> RangeOf(x.r), out |-> [p \in RangeOf(x.w) |-> x.h[CHOOSE j \in 1..Len(x.w) : x.w[j] = p]]]]
        after == AfterBuild(st.known, ran, files, n)
        owed == Owed(st.known, after, want, files)
        may == Allowed(st.known, want, files, st.maybe)
        nm == "build " \o ToString(n) \o ": "
        failing == ~b.fullok
        complete == b.kind = "build" /\ ~failing
        late == { x \in (1..Len(b.ran)) \X (1..Len(b.ran)) : x[1] # x[2] /\ RangeOf(b.ran[x[2]].w) \cap RangeOf(b.ran[x[1]].r) # {} /\ b.ran[x[1]].s < b.ran[x[2]].e }
        made == UNION { want[o].writes : o \in DOMAIN want }
        diff == Differ(Files(b.outs), Files(b.scratch)) \cap made
    IN  [c |-> Sel(b.kind = "build" /\ (b.rc = 0) # b.fullok, nm \o (IF b.fullok THEN "fails though a build from scratch succeeds" ELSE "succeeds though a build from scratch fails"))
               \o Sel(Cardinality(set) # Len(ids), nm \o "a step ran twice " \o ToString({ o \in set : Cardinality({ j \in 1..Len(ids) : ids[j] = o }) > 1 }))
               \o Sel(complete /\ ~(owed \subseteq set), nm \o "out of date but not redone " \o ToString(owed \ set))
               \o Sel(~failing /\ ~(set \subseteq may), nm \o "done without need " \o ToString(set \ may))
               \o Sel(late # {}, nm \o "started before its input was made " \o ToString({ <<ids[x[1]], ids[x[2]]>> : x \in late }))
               \o Sel(~failing /\ \E j \in done : ids[j] \in DOMAIN want /\ b.ran[j].cmd # want[ids[j]].cmd, nm \o "another command than from scratch")
               \o Sel(complete /\ b.rc = 0 /\ diff # {}, nm \o "products differ from a build from scratch " \o ToString(diff)),
         st |-> [known |-> after,
                 maybe |-> IF complete THEN {}
                           ELSE st.maybe \cup set \cup LET w == IF failing THEN now ELSE want IN Direct(st.known, w, files) \cup Older(st.known, w, files)]]

RECURSIVE Walk(_, _, _)
Walk(st, h, n) == IF n > Len(h) THEN <<>>
                  ELSE LET r == Judge(st, h[n], n) IN IF r.c # <<>> THEN r.c ELSE Walk(r.st, h, n + 1)

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Walk(Start, Cases[i + 1].h, 1) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
