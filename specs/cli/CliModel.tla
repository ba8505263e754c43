------------------------------- MODULE CliModel -------------------------------
(* Every queue of up to MaxNamed commands, each succeeding, failing, or       *)
(* queueing further ones: the work-off rule keeps the promises of N03.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxNamed, MaxPush
VARIABLES named, todo, done, failed, pushed
vars == <<named, todo, done, failed, pushed>>
Init == \E n \in 0..MaxNamed : named = n /\ todo = [x \in 1..n |-> x] /\ done = <<>> /\ failed = FALSE /\ pushed = 0
Run  == /\ todo # <<>> /\ ~failed
        /\ done' = Append(done, Head(todo))
        /\ \/ failed' = TRUE /\ UNCHANGED pushed /\ todo' = Tail(todo)
           \/ \E p \in 0..MaxPush : /\ pushed + p <= MaxPush /\ pushed' = pushed + p /\ UNCHANGED failed
                                     /\ todo' = Tail(todo) \o [x \in 1..p |-> 100 + pushed + x]
        /\ UNCHANGED named
Done == (todo = <<>> \/ failed) /\ UNCHANGED vars
Next == Run \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Ran(x) == \E k \in 1..Len(done) : done[k] = x
Once     == \A j, k \in 1..Len(done) : j # k => done[j] # done[k]
InOrder  == \A j, k \in 1..named : j < k /\ Ran(k) => Ran(j) /\ Pos(done, j) < Pos(done, k)
NamedFirst == \A x \in 1..named, y \in 101..(100 + pushed) : Ran(y) => Ran(x) /\ Pos(done, x) < Pos(done, y)
AllRun   == (todo = <<>> /\ ~failed) => Len(done) = named + pushed
Ends     == <>(todo = <<>> \/ failed)
StopsAtFailure == [][failed => UNCHANGED done]_vars
=============================================================================
