----------------------------- MODULE BuildTrace -----------------------------
(* Judges recorded builds (G11). A record is a world (see GypLoad) with       *)
(*   cfg   configuration built        gen   "make" or "ninja"                 *)
(*   ev    compiler, linker, archiver and program runs, in order of start     *)
(*   tree  content digests of the files there are after the build             *)
(*   rc    exit status of the build                                           *)
EXTENDS BuildSteps, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
OneOf(sq, P(_)) == Cardinality({ j \in 1..Len(sq) : P(sq[j]) })

OwnFlag(f) == \E p \in {"-shared", "-Wl,-soname", "-Wl,--start-group", "-Wl,--end-group", "-Wl,--whole-archive", "-Wl,--no-whole-archive", "-Wl,-rpath"} : StartsWith(f, p)
TreeHash(W, p) == LET js == { j \in 1..Len(W.tree) : W.tree[j].p = p }
                  IN  IF js = {} THEN "" ELSE W.tree[CHOOSE j \in js : TRUE].h
HashAt(W, p) == TreeHash(W, p)

CompileClauses(W, q, t) ==
    LET cs == Compiles(q, t, W.cfg)
        ce == W.comp
    IN  Flat([j \in 1..Len(cs) |->
          LET c == cs[j]
              hits == { e \in 1..Len(ce) : ce[e].src = c.src /\ ce[e].t = q }
              nm == q \o " " \o c.src \o ": "
          IN  IF hits = {} THEN <<nm \o "not compiled">>
              ELSE IF Cardinality(hits) > 1 THEN <<nm \o "compiled more than once">>
              ELSE LET e == ce[CHOOSE x \in hits : TRUE] IN
                   Sel(e.k # c.k, nm \o "wrong compiler")
                   \o Sel(e.ts # c.ts, nm \o "compiler of the wrong toolset")
                   \o Sel(e.D # c.D, nm \o "defines expected " \o ToString(c.D) \o " got " \o ToString(e.D))
                   \o Sel(e.I # c.I, nm \o "include directories expected " \o ToString(c.I) \o " got " \o ToString(e.I))
                   \o Sel(e.flags # c.flags, nm \o "flags expected " \o ToString(c.flags) \o " got " \o ToString(e.flags))
                   \o Sel(e.rc # 0, nm \o "failed")])

LinkClauses(W, T, q, t) ==
    LET ty == Ty(t)
        kind == IF ty = "static_library" THEN "ar" ELSE "link"
        hits == { e \in 1..Len(W.links) : W.links[e].t = q }
        d == Conf(t, W.cfg)
        deps == LF(t, "dependencies")
        st == SelectSeq(deps, LAMBDA p : Ty(Get(T, p)) = "static_library")
        sh == SelectSeq(deps, LAMBDA p : Ty(Get(T, p)) = "shared_library")
        nm == q \o ": "
    IN  IF hits = {} THEN <<nm \o "not linked">>
        ELSE IF Cardinality(hits) > 1 THEN <<nm \o "linked more than once">>
        ELSE LET e == W.links[CHOOSE x \in hits : TRUE]
                 objs == { W.comp[j].out : j \in { x \in 1..Len(W.comp) : W.comp[x].t = q } } \cup RangeOf(ObjectSources(q, t))
                 oi == SelectSeq(e.ins, LAMBDA p : EndsWith(p, ".o"))
                 li == SelectSeq(e.ins, LAMBDA p : ~EndsWith(p, ".o"))
                 names(qs) == [j \in 1..Len(qs) |-> OutName(Get(T, qs[j]))]
                 lb == [j \in 1..Len(li) |-> Base(li[j])]
                 own == SelectSeq(e.flags, LAMBDA f : ~OwnFlag(f))
             IN  Sel(e.k # kind, nm \o "made by the wrong tool")
                 \o Sel(e.ts # PQ(q).ts, nm \o "linker of the wrong toolset")
                 \o Sel(e.rc # 0, nm \o "link failed")
                 \o Sel(RangeOf(oi) # objs \/ Len(oi) # Cardinality(objs), nm \o "objects linked " \o ToString(oi) \o " compiled " \o ToString(objs))
                 \o (IF kind = "ar"
                     THEN Sel(li # <<>>, nm \o "archive of something else " \o ToString(li))
                          \o Sel(Contains(Join(e.flags, ""), "T") = IsFlag(t, "standalone_static_library"), nm \o "thin archive flag")
                     ELSE Sel(e.drv # "cxx" /\ \E c \in 1..Len(W.comp) : W.comp[c].k = "cxx" /\ W.comp[c].t \in {q} \cup RangeOf(st), nm \o "C++ code linked by the C compiler")
                          \o Sel(SelectSeq(lb, LAMBDA b : InSeq(b, names(st))) # names(st), nm \o "static libraries expected " \o ToString(names(st)) \o " got " \o ToString(lb))
                          \o Sel(RangeOf(lb) # RangeOf(names(st)) \cup RangeOf(names(sh)) \/ Len(lb) # Len(st) + Len(sh), nm \o "libraries linked " \o ToString(lb))
                          \o Sel(e.libs # Unify(LF(t, "libraries")), nm \o "libraries expected " \o ToString(Unify(LF(t, "libraries"))) \o " got " \o ToString(e.libs))
                          \o Sel(own # LF(d, "ldflags"), nm \o "link flags expected " \o ToString(LF(d, "ldflags")) \o " got " \o ToString(own))
                          \o LET ld == LF(d, "library_dirs") lc == [j \in 1..Len(ld) |-> Canon(q, ld[j])] IN
                             Sel(e.L # lc, nm \o "library directories expected " \o ToString(lc) \o " got " \o ToString(e.L))
                          \o Sel(ty = "executable" /\ (\A x \in RangeOf(sh) : PQ(x).ts = PQ(q).ts) /\ \E j \in 1..Len(li) : InSeq(lb[j], names(sh)) /\ ~\E x \in 1..Len(e.rpath) : HashAt(W, NormPath(PJoin(e.rpath[x], lb[j]))) # "",
                                 nm \o "its shared libraries are not found at run time: run path " \o ToString(e.rpath) \o " libraries " \o ToString(li))
                          \o Sel(InSeq("-shared", e.flags) # (ty \in {"shared_library", "loadable_module"}), nm \o "kind of link")
                          \o Sel(ty \in {"executable", "loadable_module"} /\ PQ(q).ts = "target" /\ HashAt(W, "$(PD)/" \o OutName(t)) = "", nm \o "no product in the product directory"))

SameCmd(c, e) == /\ c.k = e.k /\ c.cwd = e.cwd /\ Len(c.args) = Len(e.args)
                 /\ \A j \in 1..Len(c.args) : c.args[j].v = (IF c.args[j].path THEN e.args[j].p ELSE e.args[j].r)
InCfg(c, cfg) == [c EXCEPT !.args = [j \in 1..Len(c.args) |-> [c.args[j] EXCEPT !.v = Replace(@, "$(CFG)", cfg)]], !.outs = ForCfg(@, cfg)]
Cmds(q, t, cfg) == LET cs == ActionCmds(q, t) \o RuleCmds(q, t) IN [j \in 1..Len(cs) |-> InCfg(cs[j], cfg)]
CmdClauses(W, q, t, must) ==
    LET cs == Cmds(q, t, W.cfg)
    IN  Flat([j \in 1..Len(cs) |->
          LET n == Cardinality({ e \in 1..Len(W.cmd) : SameCmd(cs[j], W.cmd[e]) })
              near == { e \in 1..Len(W.cmd) : W.cmd[e].args # <<>> /\ \E x \in 1..Len(W.cmd[e].args) : InSeq(W.cmd[e].args[x].p, cs[j].outs) }
          IN  Sel(IF must THEN n # 1 ELSE n > 1, q \o ": command for " \o ToString(cs[j].outs) \o " run " \o ToString(n) \o " times; expected " \o ToString([x \in 1..Len(cs[j].args) |-> cs[j].args[x].v]) \o " in " \o cs[j].cwd \o " got "
                         \o ToString({ <<W.cmd[e].cwd, [x \in 1..Len(W.cmd[e].args) |-> W.cmd[e].args[x].r]>> : e \in near }))])

\* what is at a path: the file itself, or all files of the directory
Below(W, p) == { <<Tl(W.tree[j].p, Len(p)), W.tree[j].h>> : j \in { x \in 1..Len(W.tree) : W.tree[x].p = p \/ StartsWith(W.tree[x].p, p \o "/") } }
CopyClauses(W, q, t) ==
    LET cs == Copies(q, t)
    IN  Flat([j \in 1..Len(cs) |->
          Sel(Below(W, cs[j].to) = {} \/ Below(W, cs[j].to) # Below(W, cs[j].from), q \o ": copy " \o cs[j].to)])

\* which target an output belongs to
OwnerOf(T, qs, e) ==
    LET hit == { q \in qs : Ty(Get(T, q)) # "none" /\ OutName(Get(T, q)) = Base(e.out) /\ (e.ts = PQ(q).ts \/ ~\E p \in qs : p # q /\ OutName(Get(T, p)) = Base(e.out)) }
    IN  IF hit = {} THEN "" ELSE CHOOSE q \in hit : TRUE

Attribute(W, T) ==
    LET need == Needed(W, T)
        may == Allowed(W, T)
        lk == SelectSeq(W.ev, LAMBDA e : e.k \in {"link", "ar"})
        links == [j \in 1..Len(lk) |-> [k |-> lk[j].k, drv |-> lk[j].drv, t |-> OwnerOf(T, RangeOf(T.k), lk[j]), ins |-> lk[j].ins, flags |-> lk[j].flags, libs |-> lk[j].libs, rpath |-> lk[j].rpath, L |-> lk[j].L, out |-> lk[j].out, ts |-> lk[j].ts, rc |-> lk[j].rc]]
        cp == SelectSeq(W.ev, LAMBDA e : e.k \in {"cc", "cxx"})
        \* a compile run belongs to the target its object is linked into
        who(o) == LET hs == { j \in 1..Len(links) : InSeq(o, links[j].ins) } IN IF hs = {} THEN "" ELSE links[CHOOSE j \in hs : TRUE].t
        comp == [j \in 1..Len(cp) |-> [k |-> cp[j].k, t |-> who(cp[j].out), D |-> cp[j].D, I |-> cp[j].I, flags |-> cp[j].flags, src |-> cp[j].src, out |-> cp[j].out, ts |-> cp[j].ts, rc |-> cp[j].rc]]
    IN  [need |-> need, may |-> may, links |-> links, comp |-> comp, cmd |-> SelectSeq(W.ev, LAMBDA e : e.k \in {"tool", "tool2"}), cfg |-> W.cfg, tree |-> W.tree, gen |-> W.gen]

Clauses(W) ==
    LET l == Load(W) T == l.T IN
    IF ~l.ok THEN (IF W.rcgyp = 0 THEN <<"gyp accepted an invalid project: " \o l.why>> ELSE <<>>)
    ELSE IF W.rcgyp # 0 THEN <<"gyp rejected a valid project">>
    ELSE IF W.rc # 0 THEN <<"the build fails">>
    ELSE LET V == Attribute(W, T)
             \* a target nothing asks for may be built along (make names both toolsets of a target by one name), but then properly
             built(q) == q \in V.need \/ \E j \in 1..Len(V.links) : V.links[j].t = q
             srcs == [q \in RangeOf(T.k) |-> RangeOf(CompiledSources(q, Get(T, q)))]
             cmds == Flat([j \in 1..Len(T.k) |-> Cmds(T.k[j], T.l[j], W.cfg)])
         IN  Flat([j \in 1..Len(T.k) |->
                LET q == T.k[j] t == T.l[j] IN
                (IF built(q) THEN CompileClauses(V, q, t) \o (IF Ty(t) = "none" THEN <<>> ELSE LinkClauses(V, T, q, t)) ELSE <<>>)
                \o CmdClauses(V, q, t, q \in V.need) \o (IF q \in V.need THEN CopyClauses(V, q, t) ELSE <<>>)])
             \o Flat([j \in 1..Len(V.links) |-> Sel(V.links[j].t = "", "linked for no target: " \o V.links[j].out)])
             \o Flat([j \in 1..Len(V.links) |-> Sel(W.ask # "" /\ ~W.multi /\ V.links[j].t \notin V.may, "linked though not asked for: " \o V.links[j].out)])
             \o Flat([j \in 1..Len(V.comp) |-> LET e == V.comp[j] IN Sel(IF e.t = "" THEN TRUE ELSE e.src \notin srcs[e.t], "compiled for no target: " \o e.src \o " to " \o e.out)])
             \o Flat([j \in 1..Len(V.cmd) |-> Sel(~\E x \in 1..Len(cmds) : SameCmd(cmds[x], V.cmd[j]),
                    "command nobody asked for: " \o ToString([x \in 1..Len(V.cmd[j].args) |-> V.cmd[j].args[x].r]))])

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
