------------------------------ MODULE GypLoad -------------------------------
(* Loading a set of build files: from the files as written to the target      *)
(* list and target blocks a generator receives.                               *)
(*                                                                            *)
(* W describes one run:                                                       *)
(*   files    <<[p |-> path, n |-> block as written], ...>>                   *)
(*   roots    build files named on the command line                           *)
(*   incl     forced include files (-I)                                       *)
(*   vars     dictionary node: command-line and built-in variables            *)
(*   check    whether the format is checked: a key given twice (files[i].dup) then    *)
(*            refused, and so is any value of another kind                    *)
(*   cmds     results of commands                                             *)
(*   multi    generator handles several toolsets                              *)
(*   adjust   generator wants the link closure   sorted  ... sorted           *)
(*   circ     check for cycles among build files                              *)
(*   want     root targets (-R) or <<>>                                       *)
(*   order    the target order the implementation reported (judged, and used  *)
(*            where the result depends on it)                                 *)
EXTENDS GypGraph, GypExpand, GypFilter

FileIx(W, p) == IF \E i \in 1..Len(W.files) : W.files[i].p = p
                THEN CHOOSE i \in 1..Len(W.files) : W.files[i].p = p ELSE 0

\* what is neither a string, a number, a list nor a dictionary ("x")
RECURSIVE HasOther(_)
HasOther(n) == n.t = "x" \/ (n.t \in {"d", "l"} /\ \E i \in 1..Len(n.l) : HasOther(n.l[i]))
\* ------------------------------------------------------------- includes
\* result: [ok, v |-> merged block, inc |-> included files in order]
IR(n, inc) == [ok |-> TRUE, v |-> n, inc |-> inc, why |-> ""]
IE(w, n)   == [ok |-> FALSE, v |-> n, inc |-> <<>>, why |-> w]

RECURSIVE LoadIncl(_, _, _, _), InclInto(_, _, _, _, _), InclEach(_, _, _, _, _, _), InclKids(_, _, _, _, _, _), InclKid(_, _, _, _)
\* the file at p with its includes merged in (forced: extra includes, first)
LoadIncl(W, p, forced, depth) ==
    LET i == FileIx(W, p) IN
    IF i = 0 THEN IE("nofile", EmptyD)
    ELSE LET n == W.files[i].n IN
         IF W.check /\ (W.files[i].dup \/ HasOther(n)) THEN IE("format", EmptyD)
         ELSE IF n.t # "d" THEN IE("notdict", EmptyD)
         ELSE IF Has(n, "skip_includes") /\ Truthy(Get(n, "skip_includes")) THEN IR(n, <<>>)
         ELSE InclInto(W, n, p, forced, depth)
\* names of the includes of block n of file p
InclNames(n, p) == LET l == GetOr(n, "includes", EmptyL).l
                   IN  [i \in 1..Len(l) |-> NormPath(PJoin(DirName(p), l[i].s))]
InclInto(W, n, p, forced, depth) ==
    LET ls == forced \o InclNames(n, p)
        a  == InclEach(W, Del(n, "includes"), p, ls, 1, depth)
    IN  IF ~a.ok THEN a
        ELSE LET b == InclKids(W, a.v, p, 1, <<>>, depth)
             IN  IF b.ok THEN IR(b.v, ls \o b.inc) ELSE b
InclEach(W, n, p, ls, i, depth) ==
    IF i > Len(ls) THEN IR(n, <<>>)
    ELSE IF depth = 0 THEN IE("depth", n)
    ELSE LET x == LoadIncl(W, ls[i], <<>>, depth - 1) IN
         IF ~x.ok THEN x
         ELSE LET m == MergeD(n, x.v, p, ls[i])
              IN  IF ~m.ok THEN IE(m.why, n) ELSE InclEach(W, m.v, p, ls, i + 1, depth)
InclKids(W, n, p, i, inc, depth) ==   \* children of a dictionary or list node
    IF i > Len(n.l) THEN IR(n, inc)
    ELSE LET x == InclKid(W, n.l[i], p, depth)
         IN  IF ~x.ok THEN x ELSE InclKids(W, [n EXCEPT !.l[i] = x.v], p, i + 1, inc \o x.inc, depth)
InclKid(W, n, p, depth) ==
    CASE n.t = "d" -> InclInto(W, n, p, <<>>, depth)
      [] n.t = "l" -> InclKids(W, n, p, 1, <<>>, depth)
      [] OTHER     -> IR(n, <<>>)

\* every file that contributes to p: itself, then its includes, depth first
RECURSIVE InclClosure(_, _, _)
InclOf(W, p, forced) == LET x == LoadIncl(W, p, forced, 8) IN Unify(x.inc)
InclClosure(W, ps, acc) ==
    IF ps = <<>> THEN acc
    ELSE IF InSeq(Head(ps), acc) THEN InclClosure(W, Tail(ps), acc)
    ELSE InclClosure(W, Tail(ps), InclClosure(W, InclOf(W, Head(ps), <<>>), Append(acc, Head(ps))))
IncludedFiles(W, p) ==
    LET all == InclClosure(W, InclOf(W, p, W.incl), <<p>>)
    IN  [i \in 1..Len(all) |-> RelPath(all[i], DirName(p))]

\* ------------------------------------------------------------- toolsets
RECURSIVE Toolsets(_, _), ToolsetsCond(_, _)
\* the copies of one target (one per listed toolset, the first one last)
CopiesOf(t, multi) ==
    IF Has(t, "toolset") /\ ~Has(t, "toolsets") THEN <<t>>
    ELSE LET l  == IF multi /\ Has(t, "toolsets") THEN [i \in 1..Len(Get(t, "toolsets").l) |-> Get(t, "toolsets").l[i].s] ELSE <<"target">>
             t0 == Del(t, "toolsets")
         IN  IF l = <<>> THEN <<>>
             ELSE [i \in 1..(Len(l) - 1) |-> Put(t0, "toolset", S(l[i + 1]))] \o <<Put(t0, "toolset", S(l[1]))>>
ToolsetsCond(c, multi) ==
    IF c.t # "l" THEN c
    ELSE Lst([i \in 1..Len(c.l) |-> IF i > 1 /\ c.l[i].t = "d" THEN Toolsets(c.l[i], multi) ELSE c.l[i]])
Toolsets(d, multi) ==
    LET d1 == IF Has(d, "targets")
              THEN Put(d, "targets", Lst(Flat([i \in 1..Len(Get(d, "targets").l) |-> CopiesOf(Get(d, "targets").l[i], multi)])))
              ELSE d
    IN  IF Has(d1, "conditions")
        THEN Put(d1, "conditions", Lst([i \in 1..Len(Get(d1, "conditions").l) |-> ToolsetsCond(Get(d1, "conditions").l[i], multi)]))
        ELSE d1

\* ------------------------------------------------------- one build file
DepthVar(p) == LET d == RelPath("", DirName(p)) IN IF d = "" THEN "." ELSE d
LoadBuildFile(W, p) ==
    LET inc == LoadIncl(W, p, W.incl, 8)
        b1  == Put(Put(inc.v, "_DEPTH", S(".")), "included_files",
                   Lst([i \in 1..Len(IncludedFiles(W, p)) |-> S(IncludedFiles(W, p)[i])]))
        ev  == EvalD(Toolsets(b1, W.multi), "early", Put(W.vars, "DEPTH", S(DepthVar(p))), [bf |-> p, cmds |-> W.cmds], "")
        b2  == Toolsets(ev.v, W.multi)
        df  == Get(b2, "target_defaults")
        ts  == GetOr(b2, "targets", EmptyL).l
        ms  == [i \in 1..Len(ts) |-> MergeD(df, ts[i], p, p)]
    IN  IF ~inc.ok THEN Err(inc.why, EmptyD)
        ELSE IF Has(inc.v, "included_files") THEN Err("reserved", EmptyD)
        ELSE IF ~ev.ok THEN Err(ev.why, EmptyD)
        ELSE IF ~Has(b2, "target_defaults") THEN R(b2)
        ELSE IF ~Has(b2, "targets") THEN Err("notargets", EmptyD)
        ELSE IF \E i \in 1..Len(ms) : ~ms[i].ok THEN Err("merge", EmptyD)
        ELSE R(Put(Del(b2, "target_defaults"), "targets", Lst([i \in 1..Len(ms) |-> ms[i].v])))
\* files the dependencies of a loaded build file name
RefFiles(p, b) ==
    UNION { { ResolveFile(p, GetOr(t, "dependencies", EmptyL).l[j].s) : j \in 1..Len(GetOr(t, "dependencies", EmptyL).l) }
            : t \in RangeOf(GetOr(b, "targets", EmptyL).l) }
\* D: dictionary  build file -> its block, for everything reachable
RECURSIVE LoadAll(_, _, _)
LoadAll(W, todo, D) ==
    IF todo = <<>> THEN R(D)
    ELSE IF Has(D, Head(todo)) THEN LoadAll(W, Tail(todo), D)
    ELSE LET b == LoadBuildFile(W, Head(todo))
         IN  IF ~b.ok THEN Err(b.why, D)
             ELSE LoadAll(W, Tail(todo) \o SetToSeq_(RefFiles(Head(todo), b.v)), Put(D, Head(todo), b.v))

\* ------------------------------------------------------- target graph
TargetSeq(D) == Flat([i \in 1..Len(D.k) |->
                   [j \in 1..Len(GetOr(D.l[i], "targets", EmptyL).l) |->
                       LET t == Get(D.l[i], "targets").l[j] IN
                       [q |-> QN(D.k[i], GetOr(t, "target_name", S("")).s, GetOr(t, "toolset", S("")).s), t |-> t]]])
Suppressed(t) == LET x == GetOr(t, "suppress_wildcard", IntN("0")) IN x.s # "0"
\* targets a wildcard reference stands for, in file order
Wild(D, ref) ==
    LET p == PQ(ref)
        ts == GetOr(Get(D, p.file), "targets", EmptyL).l
        Hit(t) == /\ ~Suppressed(t)
                  /\ p.name \in {"*", Get(t, "target_name").s}
                  /\ p.ts \in {"*", Get(t, "toolset").s}
        hs == SelectSeq(ts, Hit)
    IN  [i \in 1..Len(hs) |-> QN(p.file, Get(hs[i], "target_name").s, Get(hs[i], "toolset").s)]
IsWild(ref) == PQ(ref).name = "*" \/ PQ(ref).ts = "*"

\* the dependency sections of target q, resolved
RefSections == <<"dependencies", "dependencies!", "dependencies/", "export_dependent_settings", "export_dependent_settings!", "export_dependent_settings/">>
Qualify(q, t, multi) ==
    Fold(LAMBDA acc, key :
           IF ~acc.ok \/ ~Has(acc.v, key) \/ EndsWith(key, "/") THEN acc
           ELSE LET ns == Get(acc.v, key).l
                    rs == [i \in 1..Len(ns) |-> S(Resolve(PQ(q).file, ns[i].s, Get(t, "toolset").s, multi))]
                IN  IF key # "dependencies" /\ \E i \in 1..Len(rs) : ~InSeq(rs[i], GetOr(acc.v, "dependencies", EmptyL).l)
                    THEN Err("exportnotdep", t)
                    ELSE R(Put(acc.v, key, Lst(rs))),
         R(t), RefSections)

Links(TT, D, W) ==
    LET q1 == [i \in 1..Len(TT.k) |-> Qualify(TT.k[i], TT.l[i], W.multi)]
        T1 == Dct(TT.k, [i \in 1..Len(q1) |-> q1[i].v])
        MapSec(t, f(_)) == Fold(LAMBDA acc, key : IF Has(acc, key) THEN Put(acc, key, Lst(f(Get(acc, key).l))) ELSE acc, t, DepSections)
        \* self references, when asked for
        T2 == Dct(T1.k, [i \in 1..Len(T1.k) |->
                 IF VarFlag(T1, T1.k[i], "prune_self_dependency")
                 THEN MapSec(T1.l[i], LAMBDA ns : IF InSeq(S(T1.k[i]), ns) THEN Unify(SelectSeq(ns, LAMBDA n : n.s # T1.k[i])) ELSE ns)
                 ELSE T1.l[i]])
        \* wildcards
        badwild == \E i \in 1..Len(T2.k) : \E key \in RangeOf(DepSections) : \E n \in RangeOf(GetOr(T2.l[i], key, EmptyL).l) :
                      IsWild(n.s) /\ (PQ(n.s).file = PQ(T2.k[i]).file \/ ~Has(D, PQ(n.s).file) \/ ~Has(Get(D, PQ(n.s).file), "targets"))
        WildList(ns) == Flat([i \in 1..Len(ns) |-> IF IsWild(ns[i].s) THEN LET w == Wild(D, ns[i].s) IN [j \in 1..Len(w) |-> S(w[j])] ELSE <<ns[i]>>])
        T3 == Dct(T2.k, [i \in 1..Len(T2.k) |-> MapSec(T2.l[i], WildList)])
        \* pure grouping targets drop link-only dependencies
        badnone == \E i \in 1..Len(T3.k) : TypeOf(T3, T3.k[i]) = "none" /\
                      \E key \in RangeOf(DepSections) : \E n \in RangeOf(GetOr(T3.l[i], key, EmptyL).l) : ~Has(T3, n.s)
        T4 == Dct(T3.k, [i \in 1..Len(T3.k) |->
                 IF TypeOf(T3, T3.k[i]) = "none"
                 THEN MapSec(T3.l[i], LAMBDA ns : IF \E n \in RangeOf(ns) : VarFlag(T3, n.s, "link_dependency")
                                                  THEN Unify(SelectSeq(ns, LAMBDA n : ~VarFlag(T3, n.s, "link_dependency"))) ELSE ns)
                 ELSE T3.l[i]])
        \* filters on the dependency lists, then duplicates
        fl == [i \in 1..Len(T4.k) |->
                 LET t == T4.l[i]
                     ks == SelectSeq(RefSections, LAMBDA k : Has(t, k))
                     f  == FilterD(Dct(ks, [j \in 1..Len(ks) |-> Get(t, ks[j])]))
                     t0 == Fold(LAMBDA acc, k : Del(acc, k), t, ks)
                 IN  IF ~f.ok THEN f ELSE R(Fold(LAMBDA acc, k : Put(acc, k, Get(f.v, k)), t0, f.v.k))]
        T5 == Dct(T4.k, [i \in 1..Len(T4.k) |-> MapSec(fl[i].v, LAMBDA ns : Unify(ns))])
    IN  IF \E i \in 1..Len(q1) : ~q1[i].ok THEN Err("exportnotdep", TT)
        ELSE IF badwild THEN Err("wildcard", TT)
        ELSE IF badnone THEN Err("dangling", TT)
        ELSE IF \E i \in 1..Len(fl) : ~fl[i].ok THEN Err("filter", TT)
        ELSE R(T5)

DepFun(T) == [q \in RangeOf(T.k) |-> RangeOf(DepsOf(T, q))]
FileFun(T) == LET fs == { PQ(q).file : q \in RangeOf(T.k) }
              IN [f \in fs |-> { PQ(d).file : d \in UNION { RangeOf(DepsOf(T, q)) : q \in { x \in RangeOf(T.k) : PQ(x).file = f } } } \ {f}]
Dangling(T) == \E q \in RangeOf(T.k) : \E d \in RangeOf(DepsOf(T, q)) : ~Has(T, d)
Colliding(qs) == \E a, b \in qs : a # b /\ DirName(PQ(a).file) = DirName(PQ(b).file)
                                  /\ PQ(a).name = PQ(b).name /\ PQ(a).ts = PQ(b).ts
Wanted(T, want) ==
    LET ok(w) == { q \in RangeOf(T.k) : PQ(q).name = Strip(w) }
    IN  ReachSet(RangeOf(T.k), DepFun(T), UNION { ok(want[i]) : i \in 1..Len(want) })
Missing(T, want) == \E i \in 1..Len(want) : ~\E q \in RangeOf(T.k) : PQ(q).name = Strip(want[i])

\* ------------------------------------------------------- configurations
NonConfig == {"actions", "configurations", "copies", "default_configuration", "dependencies", "dependencies_original",
              "libraries", "postbuilds", "product_dir", "product_extension", "product_name", "product_prefix", "rules",
              "run_as", "sources", "standalone_static_library", "suppress_wildcard", "target_name", "toolset", "toolsets",
              "type", "variables"}
NotInConfig == {"actions", "all_dependent_settings", "configurations", "dependencies", "direct_dependent_settings",
                "libraries", "link_settings", "sources", "standalone_static_library", "target_name", "type"}
KeyBase(k) == IF k # "" /\ Ch(k, Len(k)) \in {"=", "+", "?", "!", "/"} THEN Cut(k, 1) ELSE k
Varying(W, key) == KeyBase(key) \notin NonConfig
RECURSIVE Inherit(_, _, _, _, _)
\* acc: [ok, v]; merge configuration c (parents first) into acc
Inherit(bf, cfgs, acc, c, visited) ==
    IF ~acc.ok \/ c \in visited THEN acc
    ELSE IF ~Has(cfgs, c) THEN Err("noconfig", acc.v)
    ELSE LET d  == Get(cfgs, c)
             ps == GetOr(d, "inherit_from", EmptyL).l
             a  == Fold(LAMBDA x, p : Inherit(bf, cfgs, x, p.s, visited \cup {c}), acc, ps)
             m  == MergeD(a.v, d, bf, bf)
         IN  IF ~a.ok THEN a ELSE IF ~m.ok THEN m ELSE R(Del(m.v, "abstract"))
Abstract(d) == Has(d, "abstract") /\ Truthy(Get(d, "abstract"))
RECURSIVE MinStr(_)
StrLess(a, b) == \* by character code, for the characters configuration names use
    LET Ord == "-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
        RECURSIVE Less(_, _)
        Less(x, y) == IF y = "" THEN FALSE ELSE IF x = "" THEN TRUE
                      ELSE IF Ch(x, 1) = Ch(y, 1) THEN Less(Tl(x, 1), Tl(y, 1))
                      ELSE FindFrom(Ord, Ch(x, 1), 1) < FindFrom(Ord, Ch(y, 1), 1)
    IN  Less(a, b)
MinStr(sq) == IF Len(sq) = 1 THEN sq[1] ELSE LET m == MinStr(Tail(sq)) IN IF StrLess(sq[1], m) THEN sq[1] ELSE m

SetUpConfigs(W, q, t) ==
    LET t0   == IF Has(t, "configurations") THEN t ELSE Put(t, "configurations", Dct(<<"Default">>, <<EmptyD>>))
        cfgs == Get(t0, "configurations")
        conc == SelectSeq(cfgs.k, LAMBDA c : ~Abstract(Get(cfgs, c)))
        t1   == IF Has(t0, "default_configuration") THEN t0
                ELSE Put(t0, "default_configuration", S(MinStr(conc)))
        vary == SelectSeq(t1.k, LAMBDA key : Varying(W, key))
        base == Dct(vary, [i \in 1..Len(vary) |-> Get(t1, vary[i])])
        new  == [i \in 1..Len(conc) |-> Inherit(PQ(q).file, cfgs, R(base), conc[i], {})]
        bad  == \E i \in 1..Len(new) : ~new[i].ok
        badk == \E i \in 1..Len(new) : \E key \in RangeOf(new[i].v.k) : key \in NotInConfig
        t2   == Fold(LAMBDA acc, key : Del(acc, key), t1, vary)
    IN  IF conc = <<>> /\ ~Has(t0, "default_configuration") THEN Err("noconcrete", t)
        ELSE IF bad THEN Err("config", t)
        ELSE IF badk THEN Err("configkey", t)
        ELSE R(Put(t2, "configurations", Dct(conc, [i \in 1..Len(new) |-> new[i].v])))

\* ------------------------------------------------------------ validation
ValidTypes == {"executable", "loadable_module", "static_library", "shared_library", "mac_kernel_extension", "none", "windows_driver"}
Ext(p) == LET b == LET q == RFind(p, "/") IN Tl(p, q)
              d == RFind(b, ".")
          IN  IF d <= 1 THEN "" ELSE Tl(b, d)
BareExt(e) == IF StartsWith(e, ".") THEN Tl(e, 1) ELSE e
RuleSources(t, rule) ==
    LET e == BareExt(Get(rule, "extension").s)
    IN  SelectSeq(GetOr(t, "sources", EmptyL).l, LAMBDA s : Ext(s.s) = e)
Validate(t) ==
    LET rules == GetOr(t, "rules", EmptyL).l
        acts  == GetOr(t, "actions", EmptyL).l
        badType == GetOr(t, "type", S("")).s \notin ValidTypes
        badStandalone == Has(t, "standalone_static_library") /\ Truthy(Get(t, "standalone_static_library")) /\ Get(t, "type").s # "static_library"
        badRules == \/ \E i \in 1..Len(rules) : ~Has(rules[i], "rule_name") \/ ~Has(rules[i], "extension") \/ Has(rules[i], "rule_sources")
                    \/ \E i, j \in 1..Len(rules) : i # j /\ ( \/ Get(rules[i], "rule_name") = Get(rules[j], "rule_name")
                                                               \/ BareExt(Get(rules[i], "extension").s) = BareExt(Get(rules[j], "extension").s))
        badActs == \E i \in 1..Len(acts) :
                      \/ ~Has(acts[i], "action_name") \/ ~Truthy(Get(acts[i], "action_name"))
                      \/ ~Has(acts[i], "inputs")
                      \/ LET c == GetOr(acts[i], "action", EmptyL).l IN c # <<>> /\ ~Truthy(c[1])
        badRun == LET r == GetOr(t, "run_as", EmptyD) IN
                  Has(t, "run_as") /\ Truthy(r) /\
                     ( \/ r.t # "d"
                       \/ ~Has(r, "action") \/ ~Truthy(Get(r, "action")) \/ Get(r, "action").t # "l"
                       \/ (Has(r, "working_directory") /\ Truthy(Get(r, "working_directory")) /\ ~IsScalar(Get(r, "working_directory")))
                       \/ (Has(r, "environment") /\ Truthy(Get(r, "environment")) /\ Get(r, "environment").t # "d"))
        ruled == Lst([i \in 1..Len(rules) |-> LET rs == RuleSources(t, rules[i])
                                              IN  IF rs = <<>> THEN rules[i] ELSE Put(rules[i], "rule_sources", Lst(rs))])
    IN  IF badType THEN Err("type", t) ELSE IF badStandalone THEN Err("standalone", t)
        ELSE IF badRules THEN Err("rules", t) ELSE IF badRun THEN Err("runas", t) ELSE IF badActs THEN Err("actions", t)
        ELSE R(IF Has(t, "rules") THEN Put(t, "rules", ruled) ELSE t)

\* ------------------------------------------------------------------ Load
\* stagewise: [ok, why, T |-> targets, files |-> build file blocks]
LR(T, D)  == [ok |-> TRUE, why |-> "", T |-> T, D |-> D]
LE(w)     == [ok |-> FALSE, why |-> w, T |-> EmptyD, D |-> EmptyD]

\* the graph as declared: resolved, filtered, checked, pruned
Graph(W) ==
    LET D  == LoadAll(W, [i \in 1..Len(W.roots) |-> NormPath(W.roots[i])], EmptyD)
        ts == TargetSeq(D.v)
        TT == Dct([i \in 1..Len(ts) |-> ts[i].q], [i \in 1..Len(ts) |-> ts[i].t])
        L  == Links(TT, D.v, W)
        T  == L.v
        wt == IF W.want = <<>> THEN RangeOf(T.k) ELSE Wanted(T, W.want)
        ks == SelectSeq(T.k, LAMBDA q : q \in wt)
    IN  IF ~D.ok THEN LE(D.why)
        ELSE IF \E i \in 1..Len(ts) : ~Has(ts[i].t, "target_name") THEN LE("noname")
        ELSE IF \E i, j \in 1..Len(ts) : i # j /\ ts[i].q = ts[j].q THEN LE("duplicate")
        ELSE IF ~L.ok THEN LE(L.why)
        ELSE IF Dangling(T) THEN LE("dangling")
        ELSE IF W.circ /\ Cyclic(DOMAIN FileFun(T), FileFun(T)) THEN LE("filecycle")
        ELSE IF Cyclic(RangeOf(T.k), DepFun(T)) THEN LE("cycle")
        ELSE IF W.want # <<>> /\ Missing(T, W.want) THEN LE("noroot")
        ELSE IF Colliding(wt) THEN LE("collision")
        ELSE LR(Dct(ks, [i \in 1..Len(ks) |-> Get(T, ks[i])]), D.v)

EachT(T, f(_, _)) ==
    LET rs == [i \in 1..Len(T.k) |-> f(T.k[i], T.l[i])]
    IN  IF \A i \in 1..Len(rs) : rs[i].ok THEN R(Dct(T.k, [i \in 1..Len(rs) |-> rs[i].v]))
        ELSE Err((CHOOSE r \in RangeOf(rs) : ~r.ok).why, T)

Settle(W, g) ==    \* everything after the graph is known
    LET ctx(q) == [bf |-> PQ(q).file, cmds |-> W.cmds]
        badtype == \E i \in 1..Len(g.T.k) : ~Has(g.T.l[i], "type")
        p == PublishAll(g.T)
        a == IF W.adjust THEN Adjust(p.v, W.order, W.sorted) ELSE p.v
        vars(q) == Put(W.vars, "DEPTH", S(DepthVar(PQ(q).file)))
        late == EachT(a, LAMBDA q, t : EvalD(t, "late", vars(q), ctx(q), ""))
        conf == EachT(late.v, LAMBDA q, t : SetUpConfigs(W, q, t))
        filt == EachT(conf.v, LAMBDA q, t : FilterD(t))
        ll   == EachT(filt.v, LAMBDA q, t : EvalD(t, "latelate", vars(q), ctx(q), ""))
        vd   == EachT(ll.v, LAMBDA q, t : Validate(t))
    IN  IF badtype THEN LE("type")
        ELSE IF ~p.ok THEN LE(p.why) ELSE IF ~late.ok THEN LE(late.why) ELSE IF ~conf.ok THEN LE(conf.why)
        ELSE IF ~filt.ok THEN LE(filt.why) ELSE IF ~ll.ok THEN LE(ll.why) ELSE IF ~vd.ok THEN LE(vd.why)
        ELSE LR(vd.v, g.D)
Load(W) == LET g == Graph(W) IN IF g.ok THEN Settle(W, g) ELSE g
=============================================================================
