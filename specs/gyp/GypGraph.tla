------------------------------ MODULE GypGraph ------------------------------
(* The target graph: references, ordering, reachability walks, publication    *)
(* of settings, link closure.                                                 *)
(* T is a dictionary node: qualified target name -> target block.             *)
EXTENDS GypMerge

\* ------------------------------------------------------ qualified names
\* "file:name#toolset"
PQ(q) == LET c == RFind(q, ":")
             bf == IF c = 0 THEN "" ELSE SubSeq(q, 1, c - 1)
             r  == Tl(q, c)
             h  == RFind(r, "#")
         IN  [file |-> bf, name |-> IF h = 0 THEN r ELSE SubSeq(r, 1, h - 1), ts |-> IF h = 0 THEN "" ELSE Tl(r, h)]
QN(file, name, ts) == file \o ":" \o name \o (IF ts = "" THEN "" ELSE "#" \o ts)
\* a reference as written in file bf by a target of toolset ts
ResolveFile(bf, ref) == LET p == PQ(ref) IN IF p.file = "" THEN bf ELSE NormPath(PJoin(DirName(bf), p.file))
Resolve(bf, ref, ts, multi) ==
    LET p == PQ(ref) IN QN(ResolveFile(bf, ref), p.name, IF multi /\ p.ts # "" THEN p.ts ELSE ts)

DepSections == <<"dependencies", "export_dependent_settings">>
DepsOf(T, q)    == LET d == GetOr(Get(T, q), "dependencies", EmptyL).l IN [i \in 1..Len(d) |-> d[i].s]
ExportsOf(T, q) == LET d == GetOr(Get(T, q), "export_dependent_settings", EmptyL).l IN [i \in 1..Len(d) |-> d[i].s]
TypeOf(T, q)    == GetOr(Get(T, q), "type", S("")).s
Flag(T, q, f, dflt) == LET d == Get(T, q) IN IF Has(d, f) THEN Truthy(Get(d, f)) ELSE dflt
VarFlag(T, q, f) == LET v == GetOr(Get(T, q), "variables", EmptyD) IN Has(v, f) /\ Truthy(Get(v, f))

\* ------------------------------------------------------------ plain graphs
\* deps: function node -> set of nodes
ReachSet(nodes, deps, X) ==
    LET RECURSIVE Grow(_)
        Grow(Y) == LET Z == Y \cup UNION { deps[y] : y \in Y } IN IF Z = Y THEN Y ELSE Grow(Z)
    IN  Grow(X)
Cyclic(nodes, deps) == \E n \in nodes : n \in ReachSet(nodes, deps, deps[n])
IsTopo(order, deps) == \A i \in 1..Len(order) : \A d \in deps[order[i]] : \E j \in 1..(i - 1) : order[j] = d

\* ------------------------------------------------- walks of one target
RECURSIVE DeepWalk(_, _, _)
\* everything a target depends on, dependencies before dependents
DeepWalk(T, ds, acc) ==
    IF ds = <<>> THEN acc
    ELSE LET d == Head(ds)
         IN  DeepWalk(T, Tail(ds),
                IF InSeq(d, acc) THEN acc
                ELSE LET a == DeepWalk(T, DepsOf(T, d), acc) IN IF InSeq(d, a) THEN a ELSE Append(a, d))
DeepDeps(T, q) == DeepWalk(T, DepsOf(T, q), <<>>)

\* direct dependencies and what they re-export, each re-export placed right
\* behind the target that re-exports it
RECURSIVE Imported(_, _, _)
Imported(T, ds, i) ==
    IF i > Len(ds) THEN ds
    ELSE LET new == Unify(SelectSeq(ExportsOf(T, ds[i]), LAMBDA e : ~InSeq(e, ds)))
         IN  Imported(T, SubSeq(ds, 1, i) \o new \o SubSeq(ds, i + 1, Len(ds)), i + 1)
DirectAndImported(T, q) == Imported(T, Unify(DepsOf(T, q)), 1)

Linkable == {"executable", "shared_library", "loadable_module", "mac_kernel_extension", "windows_driver"}
FinallyLinked == Linkable \ {"shared_library"}
RECURSIVE LinkWalk(_, _, _, _, _, _), LinkEach(_, _, _, _, _)
LinkWalk(T, q, shared, acc, initial, x) ==
    LET ty == TypeOf(T, q) IN
    IF initial /\ ty \notin Linkable THEN acc
    ELSE IF ty = "none" /\ ~Flag(T, q, "dependencies_traverse", TRUE) THEN (IF InSeq(q, acc) THEN acc ELSE Append(acc, q))
    ELSE IF ~initial /\ ty \in FinallyLinked THEN acc
    ELSE IF ~initial /\ ty = "shared_library" /\ ~shared THEN acc
    ELSE IF InSeq(q, acc) THEN acc
    ELSE IF initial \/ ty \notin Linkable THEN LinkEach(T, DepsOf(T, q), shared, Append(acc, q), x)
    ELSE Append(acc, q)
LinkEach(T, ds, shared, acc, x) ==
    IF ds = <<>> THEN acc ELSE LinkEach(T, Tail(ds), shared, LinkWalk(T, Head(ds), shared, acc, FALSE, x), x)
LinkAgainst(T, q)  == LinkWalk(T, q, TRUE, <<>>, TRUE, 0)
LinkSettings(T, q) == LinkWalk(T, q, Flag(T, q, "allow_sharedlib_linksettings_propagation", TRUE), <<>>, TRUE, 0)

\* ------------------------------------------------- settings publication
\* T0: graph as declared; T: blocks being filled
Publishers(T, q, section) ==
    CASE section = "all_dependent_settings"    -> DeepDeps(T, q)
      [] section = "direct_dependent_settings" -> DirectAndImported(T, q)
      [] OTHER                                 -> LinkSettings(T, q)
PublishTo(T, q, section) ==
    Fold(LAMBDA acc, p : IF acc.ok /\ Has(Get(T, p), section)
                         THEN MergeD(acc.v, Get(Get(T, p), section), PQ(q).file, PQ(p).file)
                         ELSE acc,
         R(Get(T, q)), Publishers(T, q, section))
Publish(T, section) ==
    LET new == [i \in 1..Len(T.k) |-> PublishTo(T, T.k[i], section)]
    IN  IF \A i \in 1..Len(new) : new[i].ok
        THEN R(Dct(T.k, [i \in 1..Len(new) |-> Del(new[i].v, section)]))
        ELSE Err("merge", T)
PublishAll(T) ==
    LET a == Publish(T, "all_dependent_settings")
        b == Publish(a.v, "direct_dependent_settings")
        c == Publish(b.v, "link_settings")
    IN  IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE c

\* ------------------------------------------------------- link closure
\* G: the declared graph (before any adjustment); order: target order
AdjustOne(G, T, q, order, sorted) ==
    LET d == Get(T, q)
        ty == TypeOf(T, q)
        SDeps(qs) == Lst([i \in 1..Len(qs) |-> S(qs[i])])
    IN
    CASE ty = "static_library" /\ Has(d, "dependencies") ->
           LET keep == SelectSeq(DirectAndImported(G, q),
                         LAMBDA p : ~( \/ TypeOf(G, p) = "static_library" /\ ~Flag(G, p, "hard_dependency", FALSE)
                                       \/ TypeOf(G, p) # "static_library" /\ ~InSeq(p, DepsOf(G, q))))
               d1 == Put(d, "dependencies_original", Get(d, "dependencies"))
           IN  IF keep = <<>> THEN Del(d1, "dependencies") ELSE Put(d1, "dependencies", SDeps(keep))
      [] ty \in Linkable ->
           LET link == SelectSeq(LinkAgainst(G, q), LAMBDA p : p # q)
               all  == Unify(DepsOf(G, q) \o link)
               srt  == SelectSeq([i \in 1..Len(order) |-> order[Len(order) + 1 - i]], LAMBDA p : InSeq(p, all))
           IN  IF ~Has(d, "dependencies") /\ link = <<>> THEN d
               ELSE Put(d, "dependencies", SDeps(IF sorted THEN srt ELSE all))
      [] OTHER -> d
Adjust(T, order, sorted) == Dct(T.k, [i \in 1..Len(T.k) |-> AdjustOne(T, T, T.k[i], order, sorted)])
=============================================================================
