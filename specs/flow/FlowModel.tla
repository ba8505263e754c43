------------------------------ MODULE FlowModel ------------------------------
(* The mechanism behind Flow: configure writes the configuration and, if the  *)
(* build file loads, the makefile; make remakes the makefile when a file it   *)
(* was generated from is newer, and objects when a file they were made from   *)
(* is newer or their command changed. A generator killed on the way leaves    *)
(* the makefile as it was (WholeFiles) or torn. It implements Flow: after every command *)
(* its products are those Flow gives.                                         *)
EXTENDS Flow
CONSTANTS Max, TrackConfig, TrackBuildFile, CommandsKnown, WholeFiles
VARIABLES T, now, stamp, S, cfg, mkf, obj, prod, last
(* stamp: time of the last change per file; mkf: [has, at, args, T (parts of the build file), cfg, time]; obj: per type [has, unit, time] *)
vars == <<T, now, stamp, S, cfg, mkf, obj, prod, last>>
T0 == [a |-> 1, b |-> 1, l |-> 1, h |-> 1, bad |-> FALSE, v |-> 1, useB |-> FALSE, useLib |-> FALSE, broken |-> FALSE, g |-> 1, common |-> 0, n |-> 1, useH |-> TRUE, q |-> 1, useQ |-> FALSE, r |-> 1, useR |-> FALSE]
None == [has |-> FALSE]
InitF == /\ T = T0 /\ now = 1 /\ stamp = [f \in {"binding", "a", "config"} |-> 0] /\ S = Empty /\ cfg = NoCfg
         /\ mkf = None /\ obj = [t \in Types |-> None] /\ prod = [t \in Types |-> NoOut] /\ last = TRUE
O(type, tag, dtag) == [type |-> type, foo |-> "", tag |-> tag, dtag |-> dtag, target |-> "", die |-> FALSE, late |-> FALSE]
Opts == {O(t, g, d) : t \in {"", "Debug"}, g \in {"", "x"}, d \in {"", "y"}}
COpts == Opts \cup {[o EXCEPT !.die = TRUE] : o \in {O("", "x", ""), O("Debug", "", "")}}
BOpts == {O("", "", ""), O("Debug", "", "")}
Torn == [has |-> TRUE, torn |-> TRUE]
IsTorn(m) == m.has /\ "torn" \in DOMAIN m
Edit(f, T2) == /\ now' = now + 1 /\ T' = T2 /\ stamp' = [stamp EXCEPT ![f] = now + 1] /\ UNCHANGED <<S, cfg, mkf, obj, prod, last>>
Edits == \/ Edit("a", [T EXCEPT !.a = @ + 1]) \/ Edit("a", [T EXCEPT !.bad = ~@])
         \/ Edit("binding", [T EXCEPT !.v = @ + 1]) \/ Edit("binding", [T EXCEPT !.broken = ~@]) \/ Edit("binding", [T EXCEPT !.useB = ~@])
Gen(args, c) == [has |-> TRUE, args |-> args, v |-> T.v, useB |-> T.useB, cfg |-> c, time |-> now + 1]
DoConfigure(o) ==
    LET c == [has |-> TRUE, type |-> Or(o.type, "Release"), foo |-> o.foo, tag |-> o.tag] IN
    /\ now' = now + 1 /\ cfg' = c /\ stamp' = [stamp EXCEPT !.config = now + 1]
    /\ mkf' = IF T.broken THEN mkf ELSE IF o.die THEN (IF WholeFiles THEN mkf ELSE Torn) ELSE Gen([has |-> TRUE, dtag |-> o.dtag, common |-> FALSE], c)
    /\ last' = (Run(S, T, <<"configure">>, o).ok = ~(T.broken \/ o.die))
    /\ S' = Run(S, T, <<"configure">>, o).s /\ UNCHANGED <<T, obj, prod>>
\* the command of a.c with a makefile, and the object it gives
Made(m, type) == Units([T EXCEPT !.v = m.v, !.useB = m.useB], m.cfg, m.args, type)
Cmd(m, type) == {u.D : u \in Made(m, type)} \cup {{u.src} : u \in Made(m, type)}
DoBuild(o) ==
    LET stale == mkf.has /\ ~IsTorn(mkf) /\ ((TrackBuildFile /\ stamp.binding > mkf.time) \/ (TrackConfig /\ stamp.config > mkf.time))
        m     == IF stale THEN Gen(mkf.args, cfg) ELSE mkf
        type  == Or(o.type, cfg.type)
        ok    == cfg.has /\ mkf.has /\ ~(stale /\ T.broken)
        old   == ~obj[type].has \/ obj[type].time < stamp.a \/ (CommandsKnown /\ obj[type].cmd # Cmd(m, type))
        done  == ok /\ ~(old /\ T.bad)
        r     == Run(S, T, <<"build">>, o)
        killed == o.die /\ ~T.broken
    IN  /\ o.die => stale        \* there is a generator to kill
        /\ now' = now + 1 /\ mkf' = IF killed THEN (IF WholeFiles THEN mkf ELSE Torn) ELSE IF ok THEN m ELSE mkf
        /\ IF killed \/ IsTorn(mkf) \/ ~done THEN UNCHANGED <<obj, prod>>
           ELSE LET u == IF old THEN [has |-> TRUE, units |-> Made(m, type), cmd |-> Cmd(m, type), time |-> now + 1] ELSE obj[type] IN
                /\ obj' = [obj EXCEPT ![type] = u] /\ prod' = [prod EXCEPT ![type] = [has |-> TRUE, units |-> u.units]]
        /\ last' = (r.ok = (~o.die /\ (IsTorn(mkf) \/ done))) /\ S' = r.s /\ UNCHANGED <<T, cfg, stamp>>
DoClean == /\ now' = now + 1 /\ cfg' = NoCfg /\ mkf' = None /\ obj' = [t \in Types |-> None] /\ prod' = [t \in Types |-> NoOut]
           /\ S' = Run(S, T, <<"clean">>, O("", "", "")).s /\ last' = TRUE /\ UNCHANGED <<T, stamp>>
Next == now < Max /\ (Edits \/ DoClean \/ (\E o \in COpts : DoConfigure(o)) \/ \E o \in BOpts \cup {[O("", "", "") EXCEPT !.die = TRUE]} : DoBuild(o))
Spec == InitF /\ [][Next]_vars
Outcome  == last
Products == prod = S.out
\* the point of it: what a build gives does not depend on how the directory came to be
Fresh == \A type \in Types, o \in BOpts :
    LET b == Run(S, T, <<"build">>, [o EXCEPT !.type = type]) IN
    b.ok => b.s.out[type] = Run(Empty, T, <<"configure", "build">>, [O(type, S.cfg.tag, S.mk.dtag) EXCEPT !.foo = S.cfg.foo]).s.out[type]
=============================================================================
