------------------------------ MODULE ToolTrace ------------------------------
(* Judges recorded builds of one project under many settings (G16). A record: *)
(*   gen, g, b, m       as in ToolRules                                       *)
(*   steps  what the project makes: [n, kind, cpp, on |-> toolsets, own,      *)
(*          lang |-> flags of the project, in all and by language]            *)
(*   rcgyp, rc          exits of generator and builder                        *)
(*   ran    [n, words |-> wrappers and program, ts, kind, flags]              *)
EXTENDS ToolRules, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(c, n) == IF c THEN <<n>> ELSE <<>>
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
RECURSIVE Join(_, _)
Join(l, s) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o s \o Join(Tail(l), s)
\* records carry the settings as lists of [k, v]
Fun(l) == [k \in { l[j].k : j \in 1..Len(l) } |-> LET x == CHOOSE j \in 1..Len(l) : l[j].k = k IN l[x].v]
StepClauses(W, g, b, m, s, ts) ==
    LET hits == { j \in 1..Len(W.ran) : W.ran[j].n = s.n /\ W.ran[j].kind = s.kind /\ W.ran[j].ts = ts }
        nm == s.n \o "#" \o ts \o " " \o s.kind \o ": "
    IN  IF Cardinality(hits) # 1 THEN <<nm \o "run " \o ToString(Cardinality(hits)) \o " times">>
        ELSE LET e == W.ran[CHOOSE j \in hits : TRUE]
                 ok == Programs(W.gen, g, b, m, s.kind, s.cpp, ts)
                 fl == Flags(W.gen, g, b, s.kind, ts, s.own, s.lang)
             IN  Sel(e.words \notin ok, nm \o "program expected " \o ToString(ok) \o " got " \o ToString(e.words))
                 \o Sel(s.kind \in {"CC", "CXX", "LINK"} /\ e.flags # fl, nm \o "flags expected " \o ToString(fl) \o " got " \o ToString(e.flags))
Clauses(W) ==
    LET g == Fun(W.g) b == Fun(W.b) m == Fun(W.m)
        on(s) == IF IsCross(g) THEN s.on ELSE <<"target">>
    IN  IF W.rcgyp # 0 THEN <<"the generator fails">>
        ELSE IF W.rc # 0 THEN <<"the build fails">>
        ELSE Flat([j \in 1..Len(W.steps) |-> LET s == W.steps[j] IN
                   IF s.kind \in {"NM", "READELF"} /\ W.gen = "make" THEN <<>>
                   ELSE Flat([x \in 1..Len(on(s)) |-> StepClauses(W, g, b, m, s, on(s)[x])])])
             \o Flat([j \in 1..Len(W.ran) |-> Sel(~\E x \in 1..Len(W.steps) : W.steps[x].n = W.ran[j].n /\ W.steps[x].kind = W.ran[j].kind, "ran for nothing: " \o W.ran[j].n)])
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
