--------------------------------- MODULE Make ---------------------------------
(* Running the build tool. A world W holds the platform, the words after      *)
(* `build` and npm's environment, MAKE and JOBS from the environment, the     *)
(* recorded configuration, the files in build/, the tools that can be called  *)
(* and what the tool will do.                                                 *)
EXTENDS Cli

Win(W)      == W.platform = "win32"
Options(W)  == WithEnv(Parse(W.words, EmptyD, <<>>).opts, W.env)
Targets(W)  == Parse(W.words, EmptyD, <<>>).remain
Text(o, n)  == LET v == Opt(o, n) IN IF StartsWith(v, "s:") THEN Tl(v, 2) ELSE ""
First2(a, b) == IF a # "" THEN a ELSE b
OwnMake(W)  == IF W.platform \in {"aix", "os400", "freebsd", "openbsd", "netbsd"} THEN "gmake" ELSE "make"
MakeTool(W) == First2(Text(Options(W), "make"), First2(W.makeEnv, OwnMake(W)))
Levels      == <<"silly", "verbose", "info", "http", "notice", "warn", "error">>
LevelOf(W)  == First2(Text(Options(W), "loglevel"), W.levelEnv)
Verbose(W)  == LevelOf(W) \in {"silly", "verbose"}
BuildType(W) == LET d == Opt(Options(W), "debug") IN
                CASE d = "none" -> First2(W.conf.type, "Release")
                  [] d \in {"b:false", "s:"} -> "Release"
                  [] OTHER -> "Debug"

\* the number at the start of a text, "" if none or not positive
Digs == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE LeadN(_)
LeadN(s) == IF s # "" /\ Ch(s, 1) \in Digs THEN Ch(s, 1) \o LeadN(Tl(s, 1)) ELSE ""
RECURSIVE NoZero(_)
NoZero(s) == IF s # "" /\ Ch(s, 1) = "0" THEN NoZero(Tl(s, 1)) ELSE s
RECURSIVE Blank(_)
Blank(s) == IF s # "" /\ Ch(s, 1) = " " THEN Blank(Tl(s, 1)) ELSE s
Number(s) == LET t == Blank(s) IN NoZero(LeadN(IF StartsWith(t, "+") THEN Tl(t, 1) ELSE t))
Jobs(W)   == LET j == First2(Text(Options(W), "jobs"), W.jobsEnv) IN
             IF Number(j) # "" THEN Number(j) ELSE IF j \in {"max", "MAX", "Max", "mAx"} THEN W.cpus ELSE ""

MsPlatform(a) == CASE a \in {"x64", "X64"} -> "x64" [] a \in {"arm", "ARM"} -> "ARM" [] a \in {"arm64", "ARM64", "Arm64"} -> "ARM64" [] OTHER -> "Win32"
MakeArgs(W) == Targets(W) \o (IF Verbose(W) THEN <<"V=1">> ELSE <<>>) \o <<"BUILDTYPE=" \o BuildType(W), "-C", "build">>
               \o (IF Jobs(W) = "" THEN <<>> ELSE <<"--jobs", Jobs(W)>>)
Solution(W) == First2(Text(Options(W), "solution"), "build/" \o W.sln)
MsArgs(W)   == <<Solution(W)>> \o [k \in 1..Len(Targets(W)) |-> "/t:" \o Targets(W)[k]]
               \o (IF Verbose(W) THEN <<>> ELSE <<"/clp:Verbosity=minimal">>)
               \o <<"/nologo", "/p:Configuration=" \o BuildType(W) \o ";Platform=" \o MsPlatform(W.conf.arch)>>
               \o (IF Jobs(W) = "" THEN <<>> ELSE <<"/m:" \o Jobs(W)>>)

Kind(W, tool) == IF \E t \in RangeOf(W.tools) : t.name = tool THEN (CHOOSE t \in RangeOf(W.tools) : t.name = tool).kind ELSE "none"
\* a tool that can be called: found, though starting it may fail
Callable(W) == Kind(W, MakeTool(W)) \in {"ok", "broken"}
UsesMs(W)   == Win(W) /\ W.sln # ""
UsesMake(W) == ~Win(W) \/ (W.sln = "" /\ W.makefile)

\* [runs |-> whether the tool is called, tool, args, ok, why]
Expect(W) ==
    LET no(why) == [runs |-> FALSE, tool |-> "", args |-> <<>>, ok |-> FALSE, why |-> why]
        run(t, a, starts) == [runs |-> starts, tool |-> t, args |-> a, ok |-> starts /\ W.does.code = 0 /\ W.does.signal = "", why |-> "tool"]
    IN  IF W.conf.kind = "absent" THEN no("configure first")
        ELSE IF W.conf.kind = "damaged" THEN no("damaged")
        ELSE IF UsesMs(W) THEN IF W.conf.msbuild = "" THEN no("msbuild") ELSE run(W.conf.msbuild, MsArgs(W), W.does.starts)
        ELSE IF ~UsesMake(W) THEN no("nothing to build")
        ELSE IF ~Callable(W) THEN no("no tool")
        ELSE run(MakeTool(W), MakeArgs(W), IF Win(W) THEN W.does.starts ELSE Kind(W, MakeTool(W)) = "ok")
\* on every platform but Windows the tool finds the configured Python as python3 first on its PATH
Linked(W) == ~Win(W) /\ Expect(W).runs
=============================================================================
