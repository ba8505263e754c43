------------------------------- MODULE MakeModel ------------------------------
(* One build as a process: every step may fail, the tool may end in any way   *)
(* and may itself remove or fill the link's directory.                        *)
EXTENDS Naturals
CONSTANTS ForceClean,      \* the clean-up accepts that the directory is gone already
          WatchStart       \* a tool that cannot be started is noticed
VARIABLES pc, dir, link, runs, outcome, sawLink
vars == <<pc, dir, link, runs, outcome, sawLink>>
Stale == {"none", "empty", "link", "file"}
Init == /\ pc = "config" /\ runs = 0 /\ outcome = "none" /\ sawLink = FALSE
        /\ \E s \in Stale : dir = (s # "none") /\ link = (IF s \in {"none", "empty"} THEN "no" ELSE IF s = "link" THEN "stale" ELSE "stale")
Fail == pc' = "done" /\ outcome' = "failed"
Config == pc = "config" /\ \/ pc' = "which" /\ UNCHANGED <<dir, link, runs, outcome, sawLink>>
                           \/ Fail /\ UNCHANGED <<dir, link, runs, sawLink>>
Which == pc = "which" /\ \/ pc' = "mkdir" /\ UNCHANGED <<dir, link, runs, outcome, sawLink>>
                         \/ Fail /\ UNCHANGED <<dir, link, runs, sawLink>>
Mkdir == pc = "mkdir" /\ dir' = TRUE /\ pc' = "unlink" /\ UNCHANGED <<link, runs, outcome, sawLink>>
Unlink == pc = "unlink" /\ link' = "no" /\ pc' = "symlink" /\ UNCHANGED <<dir, runs, outcome, sawLink>>
Symlink == pc = "symlink" /\ link' = "own" /\ pc' = "spawn" /\ UNCHANGED <<dir, runs, outcome, sawLink>>
Spawn == pc = "spawn" /\ \/ runs' = runs + 1 /\ pc' = "running" /\ sawLink' = (link = "own") /\ UNCHANGED <<dir, link, outcome>>
                         \/ IF WatchStart THEN pc' = "cleanBad" /\ UNCHANGED <<dir, link, runs, outcome, sawLink>>
                            ELSE Fail /\ UNCHANGED <<dir, link, runs, sawLink>>
Meddle == pc = "running" /\ \/ dir' = FALSE /\ link' = "no" /\ UNCHANGED <<pc, runs, outcome, sawLink>>
                            \/ link' = (IF dir THEN "stale" ELSE "no") /\ UNCHANGED <<pc, dir, runs, outcome, sawLink>>
Exit == pc = "running" /\ \E p \in {"cleanOk", "cleanBad"} : pc' = p /\ UNCHANGED <<dir, link, runs, outcome, sawLink>>
Clean == /\ pc \in {"cleanOk", "cleanBad"} /\ pc' = "done" /\ dir' = FALSE /\ link' = "no"
         /\ outcome' = IF ~dir /\ ~ForceClean THEN "failed" ELSE IF pc = "cleanOk" THEN "ok" ELSE "failed"
         /\ UNCHANGED <<runs, sawLink>>
Done == pc = "done" /\ UNCHANGED vars
\* history: what the tool returned
VARIABLE tool
Next == (Config \/ Which \/ Mkdir \/ Unlink \/ Symlink \/ Spawn \/ Meddle \/ Exit \/ Clean \/ Done)
        /\ tool' = IF pc = "running" /\ pc' \in {"cleanOk", "cleanBad"} THEN pc' ELSE tool
Spec == Init /\ tool = "none" /\ [][Next]_<<vars, tool>> /\ WF_<<vars, tool>>(Config \/ Which) 
InitM == Init /\ tool = "none"
Once      == runs <= 1
SeesLink  == runs = 1 => sawLink
OkIff     == pc = "done" => (outcome = "ok") = (tool = "cleanOk")
Gone      == pc = "done" /\ (runs = 1 \/ link = "own") => ~dir /\ link = "no"
=============================================================================
