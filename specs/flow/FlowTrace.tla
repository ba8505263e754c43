------------------------------ MODULE FlowTrace ------------------------------
(* Judges recorded histories of node-gyp commands and edits.                  *)
EXTENDS Flow, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Rng(s) == {s[k] : k \in 1..Len(s)}
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
SeenU(p) == {[src |-> u.src, v |-> u.v, h |-> u.h, D |-> Rng(u.D)] : u \in Rng(p.units)}
Key(T, S) == <<T, S.cfg, S.mk>>
Step(S, W) == Run(S, W.tree, W.cmds, W.opts)
\* a killed generator may have put the makefile in place already
Ways(W) == {W} \cup (IF W.opts.die THEN {[W EXCEPT !.opts.late = TRUE]} ELSE {})
\* done: the types whose last build is up to date with everything, so that building again has nothing to do
Clauses(S, W, done) ==
    LET r == Step(S, W) IN
       Sel(W.ok = "hang", "does not finish")
    \o Sel(W.ok # "hang" /\ (W.ok = "ok") # r.ok, "expected " \o (IF r.ok THEN "success" ELSE "failure") \o ", got " \o W.ok)
    \o Sel(W.dir # (r.s.cfg.has), "build directory " \o (IF W.dir THEN "left" ELSE "missing"))
    \o Sel(W.links, "the helper directory is left behind")
    \o [k \in 1..Len(W.out) |-> LET p == W.out[k] e == r.s.out[p.type] IN
          IF p.has # e.has THEN p.type \o ": " \o (IF p.has THEN "a product nobody asked for" ELSE "no product")
          ELSE IF SeenU(p) # e.units THEN p.type \o ": expected " \o ToString(e.units) \o " got " \o ToString(SeenU(p))
          ELSE IF r.s.res[p.type] >= 0 /\ p.res # r.s.res[p.type] THEN p.type \o ": copied file of version " \o ToString(r.s.res[p.type]) \o " expected, got " \o ToString(p.res) ELSE ""]
    \o Sel(W.compiled > 0 /\ W.cmds = <<"build">> /\ Or(W.opts.type, S.cfg.type) \in done, "compiles though nothing changed")
RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
Ne(x) == x # ""
\* the verdict on a history: its first step that is not as specified
RECURSIVE Judge(_, _, _, _, _), JudgeWay(_, _, _, _, _, _)
Judge(S, steps, k, done, prev) ==
    IF k > Len(steps) THEN ""
    ELSE LET each == {JudgeWay(S, steps, k, done, prev, W) : W \in Ways(steps[k])} IN IF "" \in each THEN "" ELSE CHOOSE x \in each : TRUE
JudgeWay(S0, steps, k, done, prev, W) ==
    LET      S == Wipe(S0, W.wipe)
             d0 == IF k = 1 \/ W.tree = steps[k - 1].tree THEN done ELSE {}
             c == SelectSeq(Clauses(S, W, d0), Ne)
             r == Step(S, W)
             full == W.cmds # <<>> /\ W.cmds[Len(W.cmds)] \in {"build", "rebuild"} /\ r.ok /\ W.opts.target = ""
             d1 == IF W.cmds = <<"build">> THEN d0 ELSE {}
         IN  IF c # <<>> THEN "step " \o ToString(k) \o ": " \o Join(c, "; ")
             ELSE Judge(r.s, steps, k + 1, IF full THEN d1 \cup {Or(W.opts.type, r.s.cfg.type)} ELSE d1, W)
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
         /\ i' = i + 1
         /\ LET c == Judge(Empty, Cases[i + 1].steps, 1, {}, 0) IN
              /\ bad' = (IF c = "" THEN 0 ELSE 1)
              /\ (c # "" => PrintT("@BAD " \o ToString(i + 1) \o " " \o c))
=============================================================================
