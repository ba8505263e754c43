----------------------------- MODULE BuildSteps -----------------------------
(* What a build of a loaded world has to run (G11, G12).                      *)
(* From the target blocks of GypLoad (loaded with symbolic output places),    *)
(* the steps of one configuration: compile, link or archive, actions, rule    *)
(* applications and copies, with their exact arguments.                       *)
(* Places are written $(PD) product directory, $(SID) shared intermediate     *)
(* directory, $(ID:target:toolset) intermediate directory of a target.        *)
EXTENDS GypLoad

BFile(q) == PQ(q).file
BDir(q)  == LET d == DirName(PQ(q).file) IN IF d = "" THEN "." ELSE d
\* a path of target q, as seen from the top directory
Canon(q, p) ==
    IF StartsWith(p, "$(ID)") THEN NormPath("$(ID:" \o PQ(q).name \o ":" \o PQ(q).ts \o ")" \o Tl(p, 5))
    ELSE IF StartsWith(p, "$(") THEN NormPath(p)
    ELSE NormPath(PJoin(DirName(PQ(q).file), p))
StrsOf(l) == [j \in 1..Len(l) |-> l[j].s]

Base(p) == LET q == RFind(p, "/") IN Tl(p, q)
Stem(p) == LET b == Base(p) e == Ext(p) IN IF e = "" THEN b ELSE Cut(b, Len(e) + 1)
CExt   == {"c", "s", "S"}
CxxExt == {"cc", "cpp", "cxx"}
Compilable(p) == Ext(p) \in CExt \cup CxxExt

RECURSIVE Replace(_, _, _)
Replace(s, a, b) == LET p == FindFrom(s, a, 1)
                    IN  IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1) \o b \o Replace(Tl(s, p + Len(a) - 1), a, b)
DirOnly(p) == LET d == DirName(p) IN d
\* a rule's text for one of its sources
ForSource(x, src) ==
    Replace(Replace(Replace(Replace(Replace(x, "$(RROOT)", Stem(src)), "$(RDIR)", DirOnly(src)),
            "$(RPATH)", src), "$(REXT)", IF Ext(src) = "" THEN "" ELSE "." \o Ext(src)), "$(RNAME)", Base(src))

Ty(t)    == Get(t, "type").s
Conf(t, cfg) == GetOr(Get(t, "configurations"), cfg, EmptyD)
LF(d, k) == StrsOf(GetOr(d, k, EmptyL).l)
\* the text of a list for one configuration
ForCfg(l, cfg) == [j \in 1..Len(l) |-> Replace(l[j], "$(CFG)", cfg)]
IsFlag(d, k) == Has(d, k) /\ Truthy(Get(d, k)) /\ Get(d, k).s # "0"

\* ------------------------------------------------------------ steps
\* commands: [k |-> program, args |-> <<[path, v]>>, cwd, outs |-> canonical outputs, ins]
PathAfter(as, i) == i > 1 /\ as[i - 1] \in {"--in", "--out"}
CmdOf(q, as, outs, ins) ==
    [k |-> as[1], cwd |-> BDir(q), outs |-> [j \in 1..Len(outs) |-> Canon(q, outs[j])],
     ins |-> [j \in 1..Len(ins) |-> Canon(q, ins[j])],
     args |-> [j \in 1..(Len(as) - 1) |-> LET i == j + 1 IN [path |-> PathAfter(as, i), v |-> IF PathAfter(as, i) THEN Canon(q, as[i]) ELSE as[i]]]]
ActionCmds(q, t) ==
    LET as == GetOr(t, "actions", EmptyL).l
    IN  [j \in 1..Len(as) |-> CmdOf(q, LF(as[j], "action"), LF(as[j], "outputs"), LF(as[j], "inputs"))]
RuleCmds(q, t) ==
    LET rs == GetOr(t, "rules", EmptyL).l
    IN  Flat([j \in 1..Len(rs) |->
          LET src == LF(rs[j], "rule_sources") IN
          [m \in 1..Len(src) |->
             LET f(l) == [x \in 1..Len(l) |-> ForSource(l[x], src[m])] IN
             CmdOf(q, f(LF(rs[j], "action")), f(LF(rs[j], "outputs")), <<src[m]>> \o LF(rs[j], "inputs"))]])
\* sources that actions and rules add
AddedSources(q, t) ==
    LET as == SelectSeq(GetOr(t, "actions", EmptyL).l, LAMBDA a : IsFlag(a, "process_outputs_as_sources"))
        rs == SelectSeq(GetOr(t, "rules", EmptyL).l, LAMBDA a : IsFlag(a, "process_outputs_as_sources"))
    IN  Flat([j \in 1..Len(as) |-> LF(as[j], "outputs")])
        \o Flat([j \in 1..Len(rs) |->
               LET src == LF(rs[j], "rule_sources") IN
               Flat([m \in 1..Len(src) |-> LET l == LF(rs[j], "outputs") IN [x \in 1..Len(l) |-> ForSource(l[x], src[m])]])])
CompiledSources(q, t) ==
    IF Ty(t) = "none" THEN <<>>
    ELSE LET all == LF(t, "sources") \o AddedSources(q, t)
             c   == SelectSeq(all, LAMBDA p : Compilable(p))
         IN  [j \in 1..Len(c) |-> Canon(q, c[j])]
\* object files that are listed or generated, and linked as they are
ObjectSources(q, t) ==
    LET c == SelectSeq(LF(t, "sources") \o AddedSources(q, t), LAMBDA p : Ext(p) = "o")
    IN  [j \in 1..Len(c) |-> Canon(q, c[j])]
Compiles(q, t, cfg) ==
    LET d == Conf(t, cfg)
        src == CompiledSources(q, t)
    IN  [j \in 1..Len(src) |->
          [k |-> IF Ext(src[j]) \in CExt THEN "cc" ELSE "cxx", src |-> src[j], ts |-> PQ(q).ts,
           D |-> LF(d, "defines"),
           I |-> LET i == LF(d, "include_dirs") IN [x \in 1..Len(i) |-> Canon(q, i[x])],
           flags |-> LF(d, "cflags") \o (IF Ext(src[j]) \in CExt THEN LF(d, "cflags_c") ELSE LF(d, "cflags_cc"))]]
Copies(q, t) ==
    LET cs == GetOr(t, "copies", EmptyL).l
    IN  Flat([j \in 1..Len(cs) |->
          LET fs == LF(cs[j], "files") IN
          [m \in 1..Len(fs) |-> [from |-> Canon(q, fs[m]), to |-> Canon(q, PJoin(Get(cs[j], "destination").s, Base(NormPath(fs[m]))))]]])

Library == {"static_library", "shared_library", "loadable_module"}
OutName(t) ==
    LET ty == Ty(t)
        n0 == Get(t, "target_name").s
        n1 == IF ty \in Library /\ StartsWith(n0, "lib") THEN Tl(n0, 3) ELSE n0
        pre == IF Has(t, "product_prefix") THEN Get(t, "product_prefix").s ELSE IF ty \in Library THEN "lib" ELSE ""
        ext == IF Has(t, "product_extension") THEN "." \o Get(t, "product_extension").s
               ELSE IF ty = "static_library" THEN ".a" ELSE IF ty \in {"shared_library", "loadable_module"} THEN ".so" ELSE ""
    IN  pre \o (IF Has(t, "product_name") THEN Get(t, "product_name").s ELSE n1) \o ext

\* targets a plain build has to make: those of the files named, and everything they declare to depend on;
\* a build of one target by its name (ask): that and what it depends on
DeclaredDeps(t) == IF Has(t, "dependencies_original") THEN LF(t, "dependencies_original") ELSE LF(t, "dependencies")
AskedFor(W, T) ==
    LET rs == { NormPath(W.roots[i]) : i \in 1..Len(W.roots) }
    IN  { q \in RangeOf(T.k) : IF W.ask = "" THEN BFile(q) \in rs ELSE PQ(q).name = W.ask /\ PQ(q).ts = "target" }
Allowed(W, T) ==
    LET nodes == RangeOf(T.k)
    IN  ReachSet(nodes, [q \in nodes |-> RangeOf(DeclaredDeps(Get(T, q)))], AskedFor(W, T))
\* a static library made by its name alone does not need what it is to be linked with one day
Needed(W, T) ==
    IF W.ask = "" THEN Allowed(W, T)
    ELSE LET nodes == RangeOf(T.k)
             deps(q) == LET d == RangeOf(LF(Get(T, q), "dependencies"))
                        IN  IF Ty(Get(T, q)) = "static_library" THEN { p \in d : Ty(Get(T, p)) = "none" } ELSE d
         IN  ReachSet(nodes, [q \in nodes |-> deps(q)], AskedFor(W, T))
=============================================================================
