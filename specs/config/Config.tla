-------------------------------- MODULE Config --------------------------------
(* What configure does: where the headers are, what configuration is written, *)
(* and how the build generator is invoked.                                    *)
(* Values are nodes with two more kinds: t = "b" (true, false) and "n" (null).*)
EXTENDS Cli, Release

Known == BoolOpt \cup TextOpt
RECURSIVE Exact(_, _)
Exact(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "d" -> Len(a.k) = Len(b.k) /\ \A i \in 1..Len(a.k) : Has(b, a.k[i]) /\ Exact(a.l[i], Get(b, a.k[i]))
         [] a.t = "l" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : Exact(a.l[i], b.l[i])
         [] OTHER -> a.s = b.s
\* a value as it stands in the written file: truth values become words
RECURSIVE Written(_)
Written(n) == CASE n.t = "b" -> S(n.s) [] n.t = "d" -> Dct(n.k, [i \in 1..Len(n.l) |-> Written(n.l[i])])
                [] n.t = "l" -> Lst([i \in 1..Len(n.l) |-> Written(n.l[i])]) [] OTHER -> n
Truth(o, n) == Has(o, n) /\ LET v == Get(o, n) IN CASE v.t = "b" -> v.s = "true" [] v.t = "n" -> FALSE [] v.t = "i" -> v.s # "0" [] v.t \in {"l", "d"} -> TRUE [] OTHER -> v.s # ""
Text(o, n)  == IF Truth(o, n) THEN Get(o, n).s ELSE ""
Sub(d, n)   == GetOr(d, n, EmptyD)

\* -------------------------------------------------------------- header place
\* W.running: the running program's own configuration (process.config)
Request(W) == [word |-> IF W.words = <<>> THEN "" ELSE W.words[1], target |-> Text(W.opts, "target"), distUrl |-> Text(W.opts, "dist-url"),
               disturl |-> Text(W.opts, "disturl"), mirror |-> "", version |-> W.version, rel |-> W.rel]
\* the headers the running program was installed with, when it says so and they are of the version asked for
OwnPrefix(W) == LET v == Sub(W.running, "variables") IN
    IF ~Truth(W.opts, "nodedir") /\ Truth(v, "use_prefix_to_find_headers") /\ W.prefixVersion = Resolve(Request(W)).version
    THEN Get(v, "node_prefix").s ELSE ""
GivenDir(W) == IF Truth(W.opts, "nodedir") THEN Get(W.opts, "nodedir").s ELSE OwnPrefix(W)
Installs(W) == GivenDir(W) = ""
NodeDir(W)  == LET g == GivenDir(W) IN IF g = "" THEN W.devDir \o "/" \o Resolve(Request(W)).dir
               ELSE IF StartsWith(g, "~") THEN W.home \o Tl(g, 1) ELSE g

\* ------------------------------------------------------------- configuration
\* W.headers: [kind |-> "ok", "broken" or "none", data]: the configuration that came with the headers
Base_(W) == IF (GivenDir(W) # "" \/ Truth(W.opts, "disturl") \/ Truth(W.opts, "dist-url")) /\ ~Truth(W.opts, "force-process-config") /\ W.headers.kind = "ok"
            THEN W.headers.data ELSE W.running
Puts(d, kvs) == Fold(LAMBDA x, kv : IF kv[2].t = "undefined" THEN Del(x, kv[1]) ELSE Put(x, kv[1], kv[2]), d, kvs)
Undef == [EmptyD EXCEPT !.t = "undefined"]
OptOr(o, n, x) == IF Truth(o, n) THEN Get(o, n) ELSE x
RECURSIVE Under(_)
Under(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "-" THEN "_" ELSE Ch(s, 1)) \o Under(Tl(s, 1))
\* makefiles are asked for
MakeFiles(ws) == \E i \in 1..Len(ws) : StartsWith(ws[i], "--format=make") \/ (ws[i] \in {"-f", "--format"} /\ i < Len(ws) /\ StartsWith(ws[i + 1], "make"))
Configuration(W) ==
    LET b    == Base_(W)
        win  == W.platform = "win32"
        arch == OptOr(W.opts, "arch", S(W.arch))
        arm  == arch.s = "arm64"
        d0   == Puts(Sub(b, "target_defaults"), << <<"cflags", EmptyL>>, <<"defines", EmptyL>>, <<"include_dirs", EmptyL>>, <<"libraries", EmptyL>> >>)
        d1   == IF Has(W.opts, "debug") THEN Put(d0, "default_configuration", S(IF Truth(W.opts, "debug") THEN "Debug" ELSE "Release"))
                ELSE IF Truth(d0, "default_configuration") THEN d0 ELSE Put(d0, "default_configuration", S("Release"))
        d2   == IF arm THEN Puts(d1, << <<"msvs_configuration_platform", S("ARM64")>>, <<"xcode_configuration_platform", S("arm64")>> >>) ELSE d1
        vs   == W.vs
        d3   == IF ~win THEN d2
                ELSE LET x == IF MakeFiles(W.words) THEN Del(d2, "msbuild_toolset") ELSE Put(d2, "msbuild_toolset", S(vs.toolset))
                         y == IF MakeFiles(W.words) \/ vs.sdk = "" THEN x ELSE Put(x, "msvs_windows_target_platform_version", S(vs.sdk))
                     \* the ARM64 assembler came with Visual Studio 2017 version 15.9
                     IN IF arm /\ ~MakeFiles(W.words) /\ (vs.major > 15 \/ (vs.major = 15 /\ vs.minor >= 9)) THEN Put(y, "msvs_enable_marmasm", IntN("1")) ELSE y
        v0   == Puts(Sub(b, "variables"), << <<"target_arch", arch>>, <<"nodedir", S(NodeDir(W))>>, <<"python", S("PY")>>,
                                            <<"standalone_static_library", IntN(IF Truth(W.opts, "thin") THEN "0" ELSE "1")>> >>)
        v1   == IF ~win THEN v0
                ELSE LET x == IF MakeFiles(W.words) THEN Del(v0, "msbuild_path") ELSE Put(v0, "msbuild_path", S(vs.msBuild))
                     IN IF Has(x, "clang") /\ Get(x, "clang") = IntN("1") THEN Put(x, "clang", IntN("0")) ELSE x
        \* every other option is a variable
        v2   == Fold(LAMBDA x, i : IF W.opts.k[i] \in Known THEN x ELSE Put(x, Under(W.opts.k[i]), W.opts.l[i]), v1, [i \in 1..Len(W.opts.k) |-> i])
    IN  Written(Puts(b, << <<"target_defaults", d3>>, <<"variables", v2>> >>))

\* ---------------------------------------------------------- generator command
Formatted(ws) == InSeq("-f", ws) \/ InSeq("--format", ws)
Exp(W) == W.platform \in {"aix", "os390", "os400"}
ExpNames(p) == CASE p = "os390" -> <<"out/Release/lib.target/libnode.x", "out/Debug/lib.target/libnode.x", "out/Release/obj.target/libnode.x", "out/Debug/obj.target/libnode.x", "lib/libnode.x">>
                 [] OTHER -> <<"include/node/node.exp", "out/Release/node.exp", "out/Debug/node.exp", "node.exp">>
First(dir, names, there) == IF \E i \in 1..Len(names) : names[i] \in there
                            THEN dir \o "/" \o names[CHOOSE i \in 1..Len(names) : names[i] \in there /\ \A j \in 1..(i - 1) : names[j] \notin there] ELSE ""
ExpFile(W) == First(W.nodeRoot, ExpNames(W.platform), RangeOf(W.rootFiles))
ZosBase(W) == IF W.zosEnv # "" THEN (IF W.zosEnvHas THEN W.zosEnv \o "/zos-base.h" ELSE "")
              ELSE First(W.nodeRoot, <<"include/node/zoslib/zos-base.h", "include/zoslib/zos-base.h", "zoslib/include/zos-base.h", "install/include/node/zoslib/zos-base.h">>, RangeOf(W.rootFiles))
RECURSIVE Doubled(_)
Doubled(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "\\" THEN "\\\\" ELSE Ch(s, 1)) \o Doubled(Tl(s, 1))
Command(W) ==
    LET win == W.platform = "win32"
        nd  == NodeDir(W)
        rel == Resolve(Request(W))
        lib == nd \o "/" \o (IF GivenDir(W) = "" THEN "<(target_arch)" ELSE "$(Configuration)") \o "/" \o rel.name \o ".lib"
        zos == IF W.platform = "os390" THEN ZosBase(W) ELSE ""
    IN  <<W.repo \o "/gyp/gyp_main.py", "binding.gyp">> \o W.words
        \o (IF Formatted(W.words) THEN <<>> ELSE <<"-f", IF win THEN "msvs" ELSE "make">>)
        \o <<"-I", W.cwd \o "/build/config.gypi">>
        \o (IF W.hasConfig THEN <<"-I", W.cwd \o "/config.gypi">> ELSE <<>>) \o (IF W.hasCommon THEN <<"-I", W.cwd \o "/common.gypi">> ELSE <<>>)
        \o <<"-I", W.repo \o "/addon.gypi", "-I", nd \o (IF W.incCommon THEN "/include/node/common.gypi" ELSE "/common.gypi"),
             "-Dlibrary=shared_library", "-Dvisibility=default", "-Dnode_root_dir=" \o nd>>
        \o (IF Exp(W) THEN <<"-Dnode_exp_file=" \o ExpFile(W)>> ELSE <<>>) \o (IF zos # "" THEN <<"-Dzoslib_include_dir=" \o DirName(zos)>> ELSE <<>>)
        \o <<"-Dnode_gyp_dir=" \o W.repo, "-Dnode_lib_file=" \o (IF win THEN Doubled(lib) ELSE lib), "-Dmodule_root_dir=" \o W.cwd,
             "-Dnode_engine=" \o (IF Truth(W.opts, "node_engine") THEN Get(W.opts, "node_engine").s ELSE "v8"),
             "--depth=.", "--no-parallel", "--generator-output", IF win THEN W.cwd \o "/build" ELSE "build", "-Goutput_dir=.">>

\* how far configure gets
Stage(W) == LET v == Ver(Asked(Request(W))) IN
    CASE ~W.pythonOk -> "no python"
      [] W.pythonOk /\ Installs(W) /\ ~v.ok -> "invalid version"
      [] W.pythonOk /\ Installs(W) /\ v.ok /\ ~W.installOk -> "install failed"
      [] W.pythonOk /\ ~(Installs(W) /\ (~v.ok \/ ~W.installOk)) /\ W.buildIsFile -> "no build directory"
      [] W.pythonOk /\ ~(Installs(W) /\ (~v.ok \/ ~W.installOk)) /\ ~W.buildIsFile /\ W.platform = "win32" /\ ~MakeFiles(W.words) /\ ~W.vsOk -> "no visual studio"
      [] W.pythonOk /\ ~(Installs(W) /\ (~v.ok \/ ~W.installOk)) /\ ~W.buildIsFile /\ Exp(W) /\ ExpFile(W) = "" -> "no exports"
      [] W.pythonOk /\ ~(Installs(W) /\ (~v.ok \/ ~W.installOk)) /\ ~W.buildIsFile /\ W.platform = "os390" /\ ExpFile(W) # "" /\ ZosBase(W) = "" /\ ~Below(v.major, 16) -> "no zoslib"
      [] OTHER -> "generated"

\* the node directory, found from where this program or the node binary is
NodeRoot(script, exe, win) ==
    LET up(p, n) == LET c == PathC(p) IN "/" \o Join(SubSeq(c, 1, IF Len(c) > n THEN Len(c) - n ELSE 0), "/")
        nm(p) == LET c == PathC(p) IN IF c = <<>> THEN "" ELSE LastOf(c)
        above == up(script, 4)
        bin == DirName(exe)
    IN  CASE nm(above) = "deps" -> up(above, 1)
          [] nm(above) = "node_modules" -> up(above, IF win THEN 1 ELSE 2)
          [] nm(above) \notin {"deps", "node_modules"} /\ nm(bin) = "bin" -> up(bin, 1)
          [] nm(above) \notin {"deps", "node_modules"} /\ nm(bin) \in {"Release", "Debug"} -> up(bin, IF win THEN 1 ELSE 2)
          [] OTHER -> ""
=============================================================================
