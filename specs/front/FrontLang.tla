----------------------------- MODULE FrontLang ------------------------------
(* The front end of gyp: what a command line, the environment and the         *)
(* configuration directory amount to, and the command line that a generated   *)
(* makefile keeps to regenerate itself.                                       *)
(* A run W: argv, env (<<[k, v]>>), home (value of HOME), dirs (directories   *)
(* that exist), hasinc (those that hold an include.gypi), gyps (build files in*)
(* the working directory), cwd.                                               *)
EXTENDS GypExpand

Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>

\* --------------------------------------------------------- the command line
Named == { <<"--build", "configs">>, <<"--config-dir", "cfgdir">>, <<"-d", "debug">>, <<"--debug", "debug">>, <<"-D", "defines">>,
           <<"--depth", "depth">>, <<"-f", "formats">>, <<"--format", "formats">>, <<"-G", "gflags">>, <<"--generator-output", "gout">>,
           <<"-I", "includes">>, <<"--include", "includes">>, <<"-S", "suffix">>, <<"--suffix", "suffix">>, <<"--toplevel-dir", "top">>,
           <<"-R", "roots">>, <<"--root-target", "roots">> }
Flags == { <<"--check", "check">>, <<"--ignore-environment", "noenv">>, <<"--no-circular-check", "nocirc">>, <<"--no-parallel", "nopar">> }
Lists == {"configs", "debug", "defines", "formats", "gflags", "includes", "roots"}
Opts0 == [configs |-> <<>>, cfgdir |-> "", debug |-> <<>>, defines |-> <<>>, depth |-> "", formats |-> <<>>, gflags |-> <<>>, gout |-> "",
          includes |-> <<>>, suffix |-> "", top |-> "", roots |-> <<>>, check |-> FALSE, noenv |-> FALSE, nocirc |-> FALSE, nopar |-> FALSE, files |-> <<>>]
\* one token: the option it names, and the value it carries (0: none yet)
Token(a) ==
    LET eq   == FindFrom(a, "=", 1)
        long == StartsWith(a, "--")
        key  == IF long THEN (IF eq = 0 THEN a ELSE SubSeq(a, 1, eq - 1)) ELSE SubSeq(a, 1, IF Len(a) < 2 THEN Len(a) ELSE 2)
        own  == IF long THEN eq # 0 ELSE Len(a) > 2
        val  == IF long THEN Tl(a, eq) ELSE Tl(a, 2)
        n    == { x \in Named : x[1] = key }
        f    == { x \in Flags : x[1] = a }
    IN  IF f # {} THEN [k |-> "flag", name |-> (CHOOSE x \in f : TRUE)[2], own |-> FALSE, v |-> ""]
        ELSE IF n # {} THEN [k |-> "opt", name |-> (CHOOSE x \in n : TRUE)[2], own |-> own, v |-> IF own THEN val ELSE ""]
        ELSE [k |-> "file", name |-> "files", own |-> TRUE, v |-> a]
RECURSIVE Parse(_, _)
Parse(as, o) ==
    IF as = <<>> THEN o
    ELSE LET t == Token(Head(as)) IN
         IF t.k = "flag" THEN Parse(Tail(as), [o EXCEPT ![t.name] = TRUE])
         ELSE LET v == IF t.own THEN t.v ELSE as[2]
                  r == IF t.own THEN Tail(as) ELSE Tail(Tail(as))
              IN  Parse(r, IF t.k = "file" \/ t.name \in Lists THEN [o EXCEPT ![t.name] = Append(@, v)] ELSE [o EXCEPT ![t.name] = v])

\* -------------------------------------------------------------- the outcome
EnvOf(W, k) == LET h == { j \in 1..Len(W.env) : W.env[j].k = k } IN IF h = {} THEN "" ELSE W.env[CHOOSE j \in h : TRUE].v
\* numbers as Python reads them
RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN DropZeros(Tl(s, 1)) ELSE s
PyInt(s) == LET t == Strip(s)
                g == IF t # "" /\ Ch(t, 1) \in {"-", "+"} THEN Tl(t, 1) ELSE t
                d == Join(Split(g, "_"), "")
                n == DropZeros(d)
            IN  IF g # "" /\ AllIn(d, Digits) /\ \A x \in RangeOf(Split(g, "_")) : x # ""
                THEN [t |-> "i", s |-> IF Ch(t, 1) = "-" /\ n # "0" THEN "-" \o n ELSE n]
                ELSE [t |-> "s", s |-> s]
NameValue(a) == LET e == FindFrom(a, "=", 1) IN
                IF e = 0 THEN [k |-> a, t |-> "b", s |-> "True"] ELSE LET v == PyInt(Tl(a, e)) IN [k |-> SubSeq(a, 1, e - 1), t |-> v.t, s |-> v.s]
\* the last one given counts
Table(as) == LET nv == [j \in 1..Len(as) |-> NameValue(as[j])]
             IN  { nv[j] : j \in { j \in 1..Len(nv) : \A x \in (j + 1)..Len(nv) : nv[x].k # nv[j].k } }
RECURSIVE SplitFmt(_, _, _)
SplitFmt(s, cur, acc) == IF s = "" THEN Append(acc, cur)
                         ELSE IF Ch(s, 1) \in {" ", ",", "\t", "\n"} THEN SplitFmt(Tl(s, 1), "", Append(acc, cur))
                         ELSE SplitFmt(Tl(s, 1), cur \o Ch(s, 1), acc)
\* the innermost directory called src that holds one of the build files
RECURSIVE SrcOf(_)
SrcOf(d) == IF d = "" \/ d = "/" THEN "" ELSE IF Tl(d, RFind(d, "/")) = "src" THEN d ELSE SrcOf(DirName(d))
RECURSIVE FirstSrc(_, _)
FirstSrc(W, fs) == IF fs = <<>> THEN ""
                   ELSE LET s == SrcOf(NormPath(PJoin(W.cwd, DirName(Head(fs)))))
                        IN  IF s # "" THEN s ELSE FirstSrc(W, Tail(fs))

InHome(W, p) == IF StartsWith(p, "~/") /\ W.home # "" THEN W.home \o Tl(p, 1) ELSE p
Effective(W, argv) ==
    LET o     == Parse(argv, Opts0)
        env(k) == IF o.noenv THEN "" ELSE EnvOf(W, k)
        ed    == ShSplit(env("GYP_DEFINES"), "", "", FALSE, <<>>)
        eg    == ShSplit(env("GYP_GENERATOR_FLAGS"), "", "", FALSE, <<>>)
        home  == IF o.cfgdir # "" THEN InHome(W, o.cfgdir)
                 ELSE IF env("GYP_CONFIG_DIR") # "" THEN InHome(W, env("GYP_CONFIG_DIR"))
                 ELSE IF W.home # "" THEN W.home \o "/.gyp" ELSE ""
        dot   == IF InSeq(home, W.dirs) THEN home ELSE ""
        files == IF o.files # <<>> THEN o.files ELSE W.gyps
        depth == IF o.depth # "" THEN o.depth ELSE FirstSrc(W, files)
    IN  [ ok       |-> ed.ok /\ eg.ok /\ files # <<>> /\ depth # "",
          defines  |-> Table((IF ed.ok THEN ed.v ELSE <<>>) \o o.defines),
          gflags   |-> Table((IF eg.ok THEN eg.v ELSE <<>>) \o o.gflags),
          formats  |-> IF o.formats # <<>> THEN RangeOf(o.formats)
                       ELSE IF env("GYP_GENERATORS") # "" THEN RangeOf(SplitFmt(env("GYP_GENERATORS"), "", <<>>)) ELSE {"make"},
          gout     |-> IF o.gout # "" THEN o.gout ELSE env("GYP_GENERATOR_OUTPUT"),
          dot      |-> dot,
          includes |-> (IF dot # "" /\ InSeq(dot, W.hasinc) THEN <<dot \o "/include.gypi">> ELSE <<>>) \o o.includes,
          depth    |-> depth,
          top      |-> IF o.top # "" THEN o.top ELSE depth,
          roots    |-> o.roots, files |-> files, suffix |-> o.suffix, check |-> o.check, debug |-> RangeOf(o.debug), par |-> ~o.nopar ]

Place(W, p) == IF p = "" THEN "" ELSE NormPath(PJoin(W.cwd, p))
Places(W, ps) == [j \in 1..Len(ps) |-> Place(W, ps[j])]
\* the same run, whatever it is called and wherever paths are counted from
SameRun(W, a, b) ==
    Sel(a.ok # b.ok, "regen:ok") \o Sel(a.defines # b.defines, "regen:defines " \o ToString(b.defines)) \o Sel(a.gflags # b.gflags, "regen:generator flags")
    \o Sel(Place(W, a.gout) # Place(W, b.gout), "regen:generator output") \o Sel(Places(W, a.includes) # Places(W, b.includes), "regen:includes " \o ToString(b.includes))
    \o Sel(Place(W, a.depth) # Place(W, b.depth), "regen:depth") \o Sel(Place(W, a.top) # Place(W, b.top), "regen:toplevel")
    \o Sel(a.roots # b.roots, "regen:roots") \o Sel(RangeOf(Places(W, a.files)) # RangeOf(Places(W, b.files)), "regen:files " \o ToString(b.files))
    \o Sel(a.suffix # b.suffix, "regen:suffix") \o Sel(a.check # b.check, "regen:check") \o Sel(a.debug # b.debug, "regen:debug")

\* ------------------------------------------- the command line that repeats a run
Prefixed(pre, vs) == [j \in 1..Len(vs) |-> pre \o vs[j]]
One(pre, v) == IF v = "" THEN <<>> ELSE <<pre \o v>>
Regen(W, argv) ==
    LET o      == Parse(argv, Opts0)
        env(k) == IF o.noenv THEN "" ELSE EnvOf(W, k)
        words(k) == LET s == ShSplit(env(k), "", "", FALSE, <<>>) IN IF s.ok THEN s.v ELSE <<>>
        or(a, b) == IF a # "" THEN a ELSE b
    IN  <<"--ignore-environment">> \o Prefixed("-D", words("GYP_DEFINES") \o o.defines) \o Prefixed("-G", words("GYP_GENERATOR_FLAGS") \o o.gflags)
        \o One("--generator-output=", or(o.gout, env("GYP_GENERATOR_OUTPUT"))) \o One("--config-dir=", or(o.cfgdir, env("GYP_CONFIG_DIR")))
        \o Prefixed("-I", o.includes) \o One("--depth=", o.depth) \o One("--toplevel-dir=", o.top) \o One("-S", o.suffix)
        \o Prefixed("--root-target=", o.roots) \o Prefixed("--debug=", o.debug) \o (IF o.check THEN <<"--check">> ELSE <<>>)
        \o (IF o.files # <<>> THEN o.files ELSE W.gyps)
=============================================================================
