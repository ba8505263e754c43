------------------------------- MODULE ParLoad ------------------------------
(* Loading build files with worker processes: the loader hands out files it   *)
(* knows of, workers deliver results in any order, a delivered file makes its  *)
(* references known. Nothing is handed out after a failure has been seen; what *)
(* is outstanding is waited for.                                              *)
EXTENDS Naturals, FiniteSets
CONSTANT File
VARIABLES deps, bad, roots,              \* the world (never change)
          todo, out, done, err, pc, times
world == <<deps, bad, roots>>
vars  == <<deps, bad, roots, todo, out, done, err, pc, times>>

Init == /\ deps \in [File -> SUBSET File] /\ \A f \in File : f \notin deps[f]
        /\ bad \in SUBSET File
        /\ roots \in (SUBSET File) \ {{}}
        /\ todo = roots /\ out = {} /\ done = {} /\ err = FALSE /\ pc = "hand"
        /\ times = [f \in File |-> 0]

Known == todo \cup out \cup done \cup {f \in File : times[f] > 0}
HandOut(f) == /\ pc = "hand" /\ ~err /\ f \in todo
              /\ todo' = todo \ {f} /\ out' = out \cup {f} /\ times' = [times EXCEPT ![f] = @ + 1]
              /\ UNCHANGED <<world, done, err, pc>>
Wait       == /\ pc = "hand" /\ ~err /\ todo = {} /\ out # {} /\ pc' = "wait"
              /\ UNCHANGED <<world, todo, out, done, err, times>>
Deliver(f) == /\ pc # "end" /\ f \in out /\ f \notin bad
              /\ out' = out \ {f} /\ done' = done \cup {f}
              /\ todo' = todo \cup (deps[f] \ Known)
              /\ pc' = IF pc = "wait" THEN "hand" ELSE pc
              /\ UNCHANGED <<world, err, times>>
Fail(f)    == /\ pc # "end" /\ f \in out /\ f \in bad
              /\ out' = out \ {f} /\ err' = TRUE
              /\ pc' = IF pc = "wait" THEN "hand" ELSE pc
              /\ UNCHANGED <<world, todo, done, times>>
Join       == /\ pc = "hand" /\ (err \/ (todo = {} /\ out = {})) /\ pc' = "join"
              /\ UNCHANGED <<world, todo, out, done, err, times>>
End        == /\ pc = "join" /\ out = {} /\ pc' = "end"
              /\ UNCHANGED <<world, todo, out, done, err, times>>
Next == (\E f \in File : HandOut(f) \/ Deliver(f) \/ Fail(f)) \/ Wait \/ Join \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Reach(_)
Reach(X) == LET Y == X \cup UNION { deps[f] : f \in X \ bad } IN IF Y = X THEN X ELSE Reach(Y)
OnceEach   == \A f \in File : times[f] <= 1
OnlyNeeded == done \cup out \cup todo \subseteq Reach(roots)
Complete   == pc = "end" /\ ~err => done = Reach(roots) /\ done \cap bad = {}
Honest     == pc = "end" => (err <=> Reach(roots) \cap bad # {})
NothingLost == pc = "end" /\ ~err => todo = {} /\ out = {}
Ends == <>(pc = "end")
=============================================================================
