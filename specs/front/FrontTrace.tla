----------------------------- MODULE FrontTrace -----------------------------
(* Recorded runs of gyp's front end. A record is a run as in FrontLang with     *)
(* obs: what each generator was handed; regen: the command line the generated   *)
(* makefile ran when a build file had changed, and the environment it ran in.   *)
EXTENDS FrontLang, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad

ObsTable(l) == { [k |-> l[j].k, t |-> l[j].t, s |-> l[j].s] : j \in 1..Len(l) }
\* the variable that says where products go
ProductAbs(e) == PJoin(IF e.gout # "" THEN e.gout ELSE e.top, "$(BUILDTYPE)")
\* one generator's view
SeenClauses(W, e, g) ==
    Sel(ObsTable(g.defines) # e.defines, "defines: " \o ToString(ObsTable(g.defines)) \o " instead of " \o ToString(e.defines))
    \o Sel(ObsTable(g.gflags) # e.gflags, "generator flags: " \o ToString(ObsTable(g.gflags)))
    \o Sel(g.gout # e.gout, "generator output: " \o g.gout) \o Sel(g.dot # e.dot, "configuration directory: " \o g.dot)
    \o Sel(g.depth # e.depth, "depth: " \o g.depth) \o Sel(g.top # e.top, "toplevel: " \o g.top) \o Sel(g.roots # e.roots, "root targets")
    \o Sel(IF Parse(W.argv, Opts0).files = <<>> THEN RangeOf(g.files) # RangeOf(e.files) \/ Len(g.files) # Len(e.files) ELSE g.files # e.files, "build files")
    \o Sel(g.suffix # e.suffix, "suffix") \o Sel(g.par # e.par, "parallel")
    \o Sel(\E f \in RangeOf(g.incs) : Places(W, f) # Places(W, Unify(e.includes)), "forced includes: " \o ToString(g.incs) \o " instead of " \o ToString(e.includes))
    \o Sel(g.product # ProductAbs(e), "product directory: " \o g.product)

\* a build file none of whose targets is wanted may count as read or not
Pruned(W, e, f) == e.roots # <<>> /\ \E j \in 1..Len(W.gyps) : Place(W, W.gyps[j]) = Place(W, f) /\ RangeOf(W.holds[j]) \cap RangeOf(e.roots) = {}
Clauses(W) ==
    LET e == Effective(W, W.argv) IN
    IF ~e.ok THEN Sel(W.obs.ok, "accepted")
    ELSE IF ~W.obs.ok THEN <<"refused">>
    ELSE Sel({ g.format : g \in RangeOf(W.obs.gens) } # e.formats \/ Len(W.obs.gens) # Cardinality(e.formats), "formats " \o ToString(e.formats))
         \o Flat([j \in 1..Len(W.obs.gens) |-> SeenClauses(W, e, W.obs.gens[j])])
         \o (IF ~W.regen.tried THEN <<>>
             ELSE IF Place(W, W.regen.touched) \notin RangeOf(Places(W, e.files \o e.includes))
                  THEN Sel(W.regen.ran, "regen:run for " \o W.regen.touched)
             ELSE IF ~W.regen.ran THEN IF Pruned(W, e, W.regen.touched) THEN <<>> ELSE <<"regen:not run for " \o W.regen.touched>>
             ELSE Sel(Place(W, W.regen.cwd) # W.cwd, "regen:in " \o W.regen.cwd)
                  \o Sel(RangeOf(Parse(W.regen.argv, Opts0).formats) # {"make"}, "regen:format")
                  \o SameRun(W, e, Effective([W EXCEPT !.env = W.regen.env], W.regen.argv)))

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
