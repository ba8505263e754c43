------------------------------ MODULE ToolRules ------------------------------
(* Which program a build runs for each step, and with which flags of the      *)
(* environment (G16).                                                         *)
(* A case fixes three places where tools are named, each a function from the  *)
(* name of a setting to a sequence of words (<<>>: not set):                  *)
(*   g  the environment of the generator (gyp)                                *)
(*   b  the environment of the builder (make; ninja takes nothing from it)    *)
(*   m  make_global_settings of the project                                   *)
(* and whether the host toolset is separate (cross).                          *)
EXTENDS Integers, Sequences, FiniteSets

Opt(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
RECURSIVE FirstOf(_)
FirstOf(l) == IF l = <<>> THEN <<>> ELSE IF Head(l) # <<>> THEN Head(l) ELSE FirstOf(Tail(l))
HostKey(t) == t \o ".host"
MWrapped(m, t) == IF Opt(m, t) = <<>> THEN <<>> ELSE Opt(m, t \o "_wrapper") \o Opt(m, t)

\* cross-compilation is asked for by any of these
CrossKeys == {"GYP_CROSSCOMPILE", "AR_host", "CC_host", "CXX_host", "AR_target", "CC_target", "CXX_target"}
IsCross(g) == \E k \in CrossKeys : Opt(g, k) # <<>>

Default(gen, t) == CASE t = "CC" /\ gen = "make" -> <<"cc">> [] t = "CXX" /\ gen = "make" -> <<"g++">>
                     [] t = "CC" -> <<"cc">> [] t = "CXX" -> <<"c++">> [] t = "AR" -> <<"ar">> [] t = "NM" -> <<"nm">> [] t = "READELF" -> <<"readelf">>

\* ------------------------------------------------------------------ make
\* the generator's environment, then the builder's, then the project; of each, the particular before the general
MakeTarget(g, b, m, t) == FirstOf(<<Opt(g, t \o "_target"), Opt(g, t), Opt(b, t), MWrapped(m, t), Default("make", t)>>)
MakeHostDefault(t) == CASE t = "CC" -> <<"gcc">> [] t = "CXX" -> <<"g++">> [] OTHER -> <<"ar">>
MakeHost(g, b, m, t) ==
    LET env == FirstOf(<<Opt(g, t \o "_host"), Opt(g, t)>>) mg == MWrapped(m, HostKey(t))
    IN  IF t \in {"CC", "CXX"} THEN {FirstOf(<<Opt(g, t \o "_host"), mg, Opt(g, t), MakeHostDefault(t)>>)}
        ELSE IF mg # <<>> /\ env # <<>> THEN {mg, env}              \* nothing says which wins
        ELSE {FirstOf(<<mg, env, MakeHostDefault(t)>>)}
MakeLink(g, b, m, ts) ==
    IF ts = "target" THEN {FirstOf(<<Opt(g, "LINK_target"), Opt(g, "LINK"), Opt(b, "LINK"), MWrapped(m, "LINK"), MakeTarget(g, b, m, "CXX")>>)}
    ELSE LET env == FirstOf(<<Opt(g, "LINK_host"), Opt(g, "LINK")>>) mg == MWrapped(m, "LINK.host")
         IN  IF mg # <<>> /\ env # <<>> THEN {mg, env}
             ELSE IF mg \o env # <<>> THEN {mg \o env} ELSE MakeHost(g, b, m, "CXX")

\* ----------------------------------------------------------------- ninja
\* the generator's environment, then the project; a host compiler that is not named is the target's
NWrap(g, m, t) == FirstOf(<<Opt(g, t \o "_wrapper"), Opt(m, t \o "_wrapper")>>)
NinjaPlain(g, m, t) == FirstOf(<<Opt(g, t \o "_target"), Opt(g, t), Opt(m, t), Default("ninja", t)>>)
NinjaTarget(g, m, t) == (IF t \in {"CC", "CXX"} THEN NWrap(g, m, t) ELSE <<>>) \o NinjaPlain(g, m, t)
NinjaHost(g, m, t) ==
    IF t \in {"CC", "CXX"} THEN Opt(m, HostKey(t) \o "_wrapper") \o FirstOf(<<Opt(g, t \o "_host"), Opt(m, HostKey(t)), NinjaPlain(g, m, t)>>)
    ELSE FirstOf(<<Opt(g, t \o "_host"), Opt(m, HostKey(t)), Default("ninja", t)>>)
NinjaLink(g, m, ts, cpp) ==
    LET k == IF cpp THEN "LDXX" ELSE "LD"
        c == IF cpp THEN "CXX" ELSE "CC"
    IN  NWrap(g, m, "LINK") \o (IF ts = "target" THEN FirstOf(<<Opt(m, k), NinjaTarget(g, m, c)>>) ELSE FirstOf(<<Opt(m, HostKey(k)), NinjaHost(g, m, c)>>))

\* the programs that may run a step of a kind: CC and CXX compile, LINK (of C++ or not), AR, NM, READELF
Programs(gen, g, b, m, kind, cpp, ts) ==
    IF gen = "make"
    THEN IF kind = "LINK" THEN MakeLink(g, b, m, ts)
         ELSE IF ts = "target" THEN {MakeTarget(g, b, m, kind)} ELSE MakeHost(g, b, m, kind)
    ELSE IF kind = "LINK" THEN {NinjaLink(g, m, ts, cpp)}
         ELSE IF ts = "target" THEN {NinjaTarget(g, m, kind)} ELSE {NinjaHost(g, m, kind)}

\* flags of the environment: make reads them when it builds, ninja's generator when it generates
EnvFlags(gen, g, b, kind, ts) ==
    LET e == IF gen = "make" THEN b ELSE g
        s == IF ts = "host" THEN "_host" ELSE ""
    IN  CASE kind = "CC"   -> Opt(e, "CPPFLAGS" \o s) \o Opt(e, "CFLAGS" \o s)
          [] kind = "CXX"  -> Opt(e, "CPPFLAGS" \o s) \o Opt(e, "CXXFLAGS" \o s)
          [] kind = "LINK" -> Opt(e, "LDFLAGS" \o s)
          [] OTHER -> <<>>
\* make puts them behind the project's own, ninja before what is for the language
Flags(gen, g, b, kind, ts, own, lang) ==
    IF gen = "make" THEN own \o lang \o EnvFlags(gen, g, b, kind, ts)
    ELSE own \o EnvFlags(gen, g, b, kind, ts) \o lang
=============================================================================
