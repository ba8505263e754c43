----------------------------- MODULE OrderTrace -----------------------------
(* Judges the order of recorded parallel builds from scratch (G12). A record  *)
(* is one of BuildTrace, whose events carry their start s and end e.          *)
(* What a target runs starts after what the targets it depends on, at any     *)
(* depth, have run: commands and copies after their commands and links,       *)
(* compilations after their commands, links after everything of the target    *)
(* and after the links of the libraries they take in.                         *)
EXTENDS BuildSteps, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
SameCmd(c, e) == /\ c.k = e.k /\ c.cwd = e.cwd /\ Len(c.args) = Len(e.args)
                 /\ \A j \in 1..Len(c.args) : c.args[j].v = (IF c.args[j].path THEN e.args[j].p ELSE e.args[j].r)
\* runs of each target, as positions in the log
RunsOf(W, T) ==
    LET ix(P(_)) == { j \in 1..Len(W.ev) : P(W.ev[j]) }
        cmds == ix(LAMBDA e : e.k \in {"tool", "tool2"})
        links == ix(LAMBDA e : e.k \in {"link", "ar"})
        comps == ix(LAMBDA e : e.k \in {"cc", "cxx"})
        linkOf == [q \in RangeOf(T.k) |-> { j \in links : Ty(Get(T, q)) # "none" /\ OutName(Get(T, q)) = Base(W.ev[j].out) }]
    IN  [q \in RangeOf(T.k) |->
          [cmd |-> LET cs == ActionCmds(q, Get(T, q)) \o RuleCmds(q, Get(T, q)) IN { j \in cmds : \E x \in 1..Len(cs) : SameCmd(cs[x], W.ev[j]) },
           link |-> linkOf[q],
           comp |-> { j \in comps : \E l \in linkOf[q] : InSeq(W.ev[j].out, W.ev[l].ins) }]]
StartsAfter(W, A, B) == \A a \in A, b \in B : W.ev[b].e < W.ev[a].s

Clauses(W) ==
    LET l == Load(W) T == l.T IN
    IF ~l.ok \/ W.rcgyp # 0 THEN <<>>
    ELSE IF W.rc # 0 THEN <<"the build fails">>
    ELSE LET runs == RunsOf(W, T)
             nodes == RangeOf(T.k)
             deps == [q \in nodes |-> RangeOf(LF(Get(T, q), "dependencies"))]
             below == [q \in nodes |-> ReachSet(nodes, deps, deps[q])]
             Sel(c, n) == IF c THEN <<>> ELSE <<n>>
         IN  Flat([j \in 1..Len(T.k) |->
               LET q == T.k[j]
                   cmds == UNION { runs[p].cmd : p \in below[q] }
                   links == UNION { runs[p].link : p \in below[q] }
                   libs == UNION { runs[p].link : p \in { x \in deps[q] : Ty(Get(T, x)) \in {"static_library", "shared_library"} } }
                   ownlink == IF Ty(Get(T, q)) \in {"executable", "shared_library", "loadable_module"} THEN libs ELSE {}
               IN  Sel(StartsAfter(W, runs[q].cmd, cmds \cup links), q \o ": a command started before the targets it depends on were made")
                   \o Sel(StartsAfter(W, runs[q].comp, cmds), q \o ": a compilation started before the commands of the targets it depends on ended")
                   \o Sel(StartsAfter(W, runs[q].comp, runs[q].cmd), q \o ": a compilation started before the target's own commands ended")
                   \o Sel(StartsAfter(W, runs[q].link, runs[q].comp \cup runs[q].cmd \cup ownlink \cup cmds), q \o ": linked before all of it was made")])

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
