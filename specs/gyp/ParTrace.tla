------------------------------- MODULE ParTrace -----------------------------
(* Judges recorded parallel loads: every event must be a ParLoad step, and    *)
(* the whole load must end as ParLoad says, with the result of loading the    *)
(* files one after the other (GypLoad).                                       *)
EXTENDS GypLoad, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>

Norm(W) == { NormPath(W.roots[j]) : j \in 1..Len(W.roots) }
\* what each existing or missing file of the world loads to
FileRes(W) == LET fs == Norm(W) \cup { W.files[j].p : j \in 1..Len(W.files) }
              IN  fs
St(todo, out, done, err, seen, c) == [todo |-> todo, out |-> out, done |-> done, err |-> err, seen |-> seen, c |-> c]
Step(W, s, e) ==
    LET k == e[1]  f == e[2] IN
    CASE k = "submit" ->
           LET ok == f \in s.todo IN
           St(s.todo \ {f}, s.out \cup {f}, s.done, s.err, s.seen \cup {f},
              s.c \o Sel(~ok /\ f \in s.seen, "loaded-twice:" \o f) \o Sel(~ok /\ f \notin s.seen, "not-referenced:" \o f))
      [] k = "result" ->
           LET r == LoadBuildFile(W, f)
               ds == IF r.ok THEN RefFiles(f, r.v) ELSE {}
           IN St(s.todo \cup (ds \ (s.seen \cup s.todo)), s.out \ {f}, s.done \cup {f}, s.err, s.seen,
                 s.c \o Sel(~r.ok, "bad-file-delivered:" \o f) \o Sel(f \notin s.out, "delivered-unasked:" \o f))
      [] k = "failed" ->
           LET r == LoadBuildFile(W, f)
           IN St(s.todo, s.out \ {f}, s.done, TRUE, s.seen, s.c \o Sel(r.ok, "good-file-failed:" \o f))
      [] k = "lost" -> St(s.todo, s.out \ {f}, s.done, TRUE, s.seen, s.c \o <<"worker-died:" \o f>>)
      [] k = "callback-raised" -> St(s.todo, s.out, s.done, s.err, s.seen, s.c \o <<"callback-raised:" \o f>>)
      [] OTHER -> s

RECURSIVE Diff(_, _, _)
Diff(a, b, at) ==
    IF Same(a, b) THEN <<>>
    ELSE IF a.t = "d" /\ b.t = "d"
         THEN LET ks == Unify(a.k \o b.k) IN
              Flat([j \in 1..Len(ks) |->
                 IF ~Has(a, ks[j]) THEN <<at \o "/" \o ks[j] \o " unexpected">>
                 ELSE IF ~Has(b, ks[j]) THEN <<at \o "/" \o ks[j] \o " missing">>
                 ELSE Diff(Get(a, ks[j]), Get(b, ks[j]), at \o "/" \o ks[j])])
         ELSE <<at \o " differs">>

Clauses(W) ==
    LET o == W.obs
        s == Fold(LAMBDA acc, e : Step(W, acc, e), St(Norm(W), {}, {}, FALSE, {}, <<>>), W.ev)
        l == Load(W)
        traced == W.ev # <<>>
        files == RangeOf([j \in 1..Len(o.inc) |-> o.inc[j].p])
    IN  IF o.hang THEN <<"hang">>
        ELSE s.c
             \o Sel(traced /\ o.ok /\ s.err, "failure-swallowed")
             \o Sel(traced /\ o.ok /\ (s.todo # {} \/ s.out # {}), "file-lost")
             \o Sel(o.ok # l.ok, IF o.ok THEN "accepted-but-invalid:" \o l.why ELSE "rejected-but-valid")
             \o (IF ~o.ok \/ ~l.ok THEN <<>>
                 ELSE Sel(files # RangeOf(l.D.k), "build-files-loaded")
                      \o Sel(o.order # W.seqorder, "order-differs-from-sequential")
                      \o (IF RangeOf(o.order) # RangeOf(l.T.k) THEN <<"target-set">>
                          ELSE Flat([j \in 1..Len(l.T.k) |-> Diff(l.T.l[j], Get(o.T, l.T.k[j]), l.T.k[j])])))

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
