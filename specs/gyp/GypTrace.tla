------------------------------ MODULE GypTrace ------------------------------
(* Judges recorded gyp runs against the specification of loading.             *)
(* Every record holds a world W (see GypLoad) and W.obs, what happened:       *)
(*   ok, hang, order, T (target blocks), inc (included files per build file), *)
(*   extra (blocks of targets that are not in the list), ftargets             *)
(* Views select what a property is about:                                     *)
(*   "graph" target set, order, links, errors    "full"  whole blocks         *)
EXTENDS GypLoad, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
View  == IOEnv.VERIF_VIEW
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>

RECURSIVE Diff(_, _, _)
\* paths at which two trees differ (spec side first), at most a few
Diff(a, b, at) ==
    IF Same(a, b) THEN <<>>
    ELSE IF a.t = "d" /\ b.t = "d"
         THEN LET ks == Unify(a.k \o b.k) IN
              Flat([j \in 1..Len(ks) |->
                 IF ~Has(a, ks[j]) THEN <<at \o "/" \o ks[j] \o " unexpected">>
                 ELSE IF ~Has(b, ks[j]) THEN <<at \o "/" \o ks[j] \o " missing">>
                 ELSE Diff(Get(a, ks[j]), Get(b, ks[j]), at \o "/" \o ks[j])])
         ELSE <<at \o " expected " \o ToString([x \in 1..Len(a.l) |-> a.l[x].s]) \o a.s \o " got " \o ToString([x \in 1..Len(b.l) |-> b.l[x].s]) \o b.s>>

\* re-export lists travel with the configurations in the final blocks
SeenExports(T, q) ==
    LET t == Get(T, q)
        c == GetOr(t, "configurations", EmptyD)
        d == IF Has(t, "export_dependent_settings") \/ c.k = <<>> THEN t ELSE c.l[1]
        l == GetOr(d, "export_dependent_settings", EmptyL).l
    IN  [j \in 1..Len(l) |-> l[j].s]

GraphClauses(W, g) ==
    LET o == W.obs
        os == RangeOf(o.order)
        deps == DepFun(g.T)
    IN  Sel(os # RangeOf(g.T.k), "target-set")
        \o Sel(Len(o.order) # Cardinality(os), "target-repeated")
        \o Sel(os = RangeOf(g.T.k) /\ ~IsTopo(o.order, deps), "target-before-its-dependency")
        \o Sel(o.extra # <<>>, "block-of-unlisted-target")
        \o (IF os # RangeOf(g.T.k) \/ W.adjust THEN <<>>
            ELSE Flat([j \in 1..Len(g.T.k) |->
                   LET q == g.T.k[j] IN
                   Sel(DepsOf(o.T, q) # DepsOf(g.T, q), "links-of:" \o q)
                   \o Sel(SeenExports(o.T, q) # ExportsOf(g.T, q), "exports-of:" \o q)]))

\* sections that published settings end up in
\* generators are handed no numbers: every one has become its text
RECURSIVE NoInts(_)
NoInts(n) == n.t # "i" /\ \A j \in 1..Len(n.l) : NoInts(n.l[j])
ContentClauses(W, l) ==
    LET o == W.obs IN
    IF RangeOf(o.order) # RangeOf(l.T.k) THEN <<"target-set">>
    ELSE Flat([j \in 1..Len(l.T.k) |-> Diff(l.T.l[j], Get(o.T, l.T.k[j]), l.T.k[j])])
         \o Flat([j \in 1..Len(o.T.k) |-> Sel(~NoInts(o.T.l[j]), "number left in " \o o.T.k[j])])
LinkClauses(W, l) ==
    LET o == W.obs IN
    IF RangeOf(o.order) # RangeOf(l.T.k) THEN <<"target-set">>
    ELSE Flat([j \in 1..Len(l.T.k) |->
            LET q == l.T.k[j] d == Get(l.T, q) e == Get(o.T, q) IN
            Sel(DepsOf(o.T, q) # DepsOf(l.T, q), "link-list-of:" \o q \o " expected " \o ToString(DepsOf(l.T, q)) \o " got " \o ToString(DepsOf(o.T, q)))
            \o Sel(Has(d, "dependencies_original") # Has(e, "dependencies_original"), "declared-list-kept:" \o q)
            \o Sel(Has(d, "dependencies_original") /\ Has(e, "dependencies_original")
                   /\ ~Same(Get(d, "dependencies_original"), Get(e, "dependencies_original")), "declared-list:" \o q)])
IncClauses(W, l) ==
    LET fs == [j \in 1..Len(W.obs.inc) |-> W.obs.inc[j].p] IN
    Sel(RangeOf(fs) # RangeOf(l.D.k), "build-files-loaded")
    \o (IF RangeOf(fs) # RangeOf(l.D.k) THEN <<>>
        ELSE Flat([j \in 1..Len(fs) |->
              Sel(W.obs.inc[j].l # IncludedFiles(W, fs[j]), "included-files-of:" \o fs[j] \o " expected " \o ToString(IncludedFiles(W, fs[j])))]))

\* one text in one directory is one command: it runs once, and every reference sees its one result
RanClauses(W) == Flat([j \in 1..Len(W.obs.ran) |-> Sel(W.obs.ran[j].n > 1, "ran " \o ToString(W.obs.ran[j].n) \o " times: " \o W.obs.ran[j].c)])

Clauses(W) ==
    LET g == Graph(W)
        l == IF View = "graph" THEN g ELSE IF g.ok THEN Settle(W, g) ELSE g
    IN  IF W.obs.hang THEN <<"hang">>
        ELSE IF W.obs.ok # l.ok THEN <<IF W.obs.ok THEN "accepted-but-invalid:" \o l.why ELSE "rejected-but-valid">>
        ELSE IF ~l.ok THEN <<>>
        ELSE CASE View = "graph" -> GraphClauses(W, g)
               [] View = "links" -> LinkClauses(W, l)
               [] View = "full"  -> ContentClauses(W, l) \o IncClauses(W, l) \o RanClauses(W)
               [] OTHER -> <<"no-such-view">>

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
