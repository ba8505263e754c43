--------------------------------- MODULE Flow ---------------------------------
(* A module built with node-gyp over time: its files change, and commands     *)
(* (configure, build, clean, rebuild) run between the changes.                *)
(* A tree T is the state of the module's files:                               *)
(*   a, b, l, h   versions of the sources and the header (a and l include it) *)
(*   bad          a.c does not compile                                        *)
(*   v, useB, useLib, broken   the build file: a define, whether b.c and the  *)
(*                library are part of it, whether it can be loaded at all     *)
(*   g            version of the settings it includes                         *)
(*   common       version of the module's own common.gypi, 0: not there       *)
(*   n            version of the headers' settings                            *)
(*   useH         the header is there and included                            *)
(*   q, useQ      a source made by an action, and the text it is made from    *)
(*   r, useR      a file that is copied beside the product                    *)
(* The state S of the build directory:                                        *)
(*   cfg    what the last configure recorded (has, type, foo, tag)            *)
(*   mk     how the makefile was generated (has, dtag, common: included)      *)
(*   out    the product per build type (has, units)                           *)
(*   res    the copied file per build type: its version, 0: not there, -1: a  *)
(*          build failed and may have copied it or not                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Types == {"Release", "Debug"}
NoCfg == [has |-> FALSE, type |-> "", foo |-> "", tag |-> ""]
NoMk  == [has |-> FALSE, dtag |-> "", common |-> FALSE]
NoOut == [has |-> FALSE, units |-> {}]
Empty == [cfg |-> NoCfg, mk |-> NoMk, out |-> [t \in Types |-> NoOut], res |-> [t \in Types |-> 0]]
Or(a, b) == IF a # "" THEN a ELSE b
N(s, n)  == s \o ToString(n)

\* what is compiled and linked: a function of the files, the recorded configuration and the makefile's arguments only
Shared(T, M, type) == {IF type = "Debug" THEN "F_DBG" ELSE "F_REL", N("F_G", T.g), N("F_N", T.n)} \cup (IF M.common THEN {N("F_C", T.common)} ELSE {})
Own(T, C, M) == {N("F_V", T.v), "F_T=" \o Or(C.tag, Or(M.dtag, "none"))}
                \cup (IF C.foo = "on" THEN {"F_FOO"} ELSE {}) \cup (IF T.useLib THEN {"F_LIB"} ELSE {})
Unit(src, v, h, D) == [src |-> src, v |-> N("", v), h |-> h, D |-> D]
Units(T, C, M, type) ==
    {Unit("a.c", T.a, IF T.useH THEN N("", T.h) ELSE "-", Shared(T, M, type) \cup Own(T, C, M))}
    \cup (IF T.useB THEN {Unit("b.c", T.b, "-", Shared(T, M, type) \cup Own(T, C, M))} ELSE {})
    \cup (IF T.useQ THEN {Unit("q.c", T.q, "-", Shared(T, M, type) \cup Own(T, C, M))} ELSE {})
    \cup (IF T.useLib THEN {Unit("l.c", T.l, IF T.useH THEN N("", T.h) ELSE "-", Shared(T, M, type))} ELSE {})

Res(S, ok) == [s |-> S, ok |-> ok]
Clean(S) == Res(Empty, TRUE)
\* o: the options of the command line: type, foo, tag, dtag ("": not given) and, for build, a target;
\* die: the generator is killed on the way, late: once the makefile was in place
Configure(S, T, o) ==
    LET c == [has |-> TRUE, type |-> Or(o.type, "Release"), foo |-> o.foo, tag |-> o.tag]
        m == [has |-> TRUE, dtag |-> o.dtag, common |-> T.common > 0]
    IN  IF T.broken \/ (o.die /\ ~o.late) THEN Res([S EXCEPT !.cfg = c], FALSE)
        ELSE IF o.die THEN Res([S EXCEPT !.cfg = c, !.mk = m], FALSE) ELSE Res([S EXCEPT !.cfg = c, !.mk = m], TRUE)
Build(S, T, o) ==
    LET type  == Or(o.type, S.cfg.type)
        loads == ~o.die /\ S.cfg.has /\ S.mk.has /\ ~T.broken /\ (S.mk.common => T.common > 0)
        knows == o.target # "core" \/ T.useLib
        good  == loads /\ knows /\ (o.target = "core" \/ ~T.bad)
    IN  IF ~good THEN Res(IF loads /\ knows /\ T.useR THEN [S EXCEPT !.res[type] = -1] ELSE S, FALSE)
        ELSE IF o.target = "core" THEN Res(S, TRUE)
        ELSE Res([S EXCEPT !.out[type] = [has |-> TRUE, units |-> Units(T, S.cfg, S.mk, type)], !.res[type] = IF T.useR THEN T.r ELSE @], TRUE)
\* somebody removes a product
Wipe(S, type) == IF type = "" THEN S ELSE [S EXCEPT !.out[type] = NoOut]

RECURSIVE Run(_, _, _, _)
Run(S, T, cmds, o) ==
    IF cmds = <<>> THEN Res(S, TRUE)
    ELSE LET c == Head(cmds)
             rest == IF c = "rebuild" THEN Tail(cmds) \o <<"clean", "configure", "build">> ELSE Tail(cmds)
             r == CASE c = "clean" -> Clean(S) [] c = "configure" -> Configure(S, T, o) [] c = "build" -> Build(S, T, o) [] OTHER -> Res(S, TRUE)
         IN  IF r.ok THEN Run(r.s, T, rest, o) ELSE r
=============================================================================
