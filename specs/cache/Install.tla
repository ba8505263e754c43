------------------------------- MODULE Install --------------------------------
(* The install and remove protocols on one version directory, with a failure  *)
(* or a crash possible before every step and any command afterwards.          *)
(*   marker  does installVersion vouch for the directory                      *)
(*   h       content of every header: "none", "half", or an archive's number  *)
(*   vouched archives whose checksum was found to match                       *)
(* Protocol variants (controls) show that the order matters:                  *)
(*   "code"  what the implementation does                                     *)
(*   "early" marker written before the checksums are compared                 *)
(*   "keep"  an earlier marker stays while files are replaced                 *)
(*   "lax"   remove deletes the files in any order                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Hdr, Arcs, Variant, MaxOps
VARIABLES marker, h, dir, pc, arc, good, todo, vouched, ops
vars == <<marker, h, dir, pc, arc, good, todo, vouched, ops>>

Init == /\ marker = FALSE /\ h = [x \in Hdr |-> "none"] /\ dir = FALSE /\ pc = "idle" /\ arc = "-" /\ good = FALSE
        /\ todo = {} /\ vouched = {} /\ ops = 0

Idle == pc = "idle" /\ ops < MaxOps
\* install, or a conditional install that finds no marker; g: does the checksum list match the archive a
Start(ensure, a, g) ==
    /\ Idle /\ ops' = ops + 1
    /\ arc' = a /\ good' = g /\ todo' = Hdr
    /\ pc' = IF ensure /\ dir /\ marker THEN "idle" ELSE "mkdir"
    /\ UNCHANGED <<marker, h, dir, vouched>>
MkDir    == pc = "mkdir" /\ dir' = TRUE /\ pc' = (IF Variant = "keep" THEN "extract" ELSE "unmark")
            /\ UNCHANGED <<marker, h, arc, good, todo, vouched, ops>>
Unmark   == pc = "unmark" /\ marker' = FALSE /\ pc' = "extract" /\ UNCHANGED <<h, dir, arc, good, todo, vouched, ops>>
Extract  == /\ pc = "extract"
            /\ \/ \E x \in todo : h[x] # "half" /\ (\A y \in Hdr : y # x => h[y] # "half") /\ h' = [h EXCEPT ![x] = "half"] /\ UNCHANGED <<todo, pc>>
               \/ \E x \in todo : h[x] = "half" /\ h' = [h EXCEPT ![x] = arc] /\ todo' = todo \ {x} /\ UNCHANGED pc
               \/ todo = {} /\ pc' = "sums" /\ UNCHANGED <<h, todo>>
            /\ UNCHANGED <<marker, dir, arc, good, vouched, ops>>
\* the checksum list arrives; the early variant writes the marker meanwhile
Sums     == /\ pc = "sums"
            /\ \/ Variant = "early" /\ ~marker /\ marker' = TRUE /\ UNCHANGED <<pc, vouched>>
               \/ good /\ vouched' = vouched \cup {arc} /\ pc' = "mark" /\ UNCHANGED marker
               \/ ~good /\ pc' = "rollback" /\ UNCHANGED <<vouched, marker>>
            /\ UNCHANGED <<h, dir, arc, good, todo, ops>>
Mark     == pc = "mark" /\ marker' = TRUE /\ pc' = "idle" /\ UNCHANGED <<h, dir, arc, good, todo, vouched, ops>>
\* remove, by itself or as roll-back
Remove   == Idle /\ dir /\ ops' = ops + 1 /\ pc' = "rollback" /\ UNCHANGED <<marker, h, dir, arc, good, todo, vouched>>
Rollback == /\ pc = "rollback"
            /\ \/ marker /\ marker' = FALSE /\ UNCHANGED <<h, dir, pc>>
               \/ (~marker \/ Variant = "lax") /\ \E x \in Hdr : h[x] # "none" /\ h' = [h EXCEPT ![x] = "none"] /\ UNCHANGED <<marker, dir, pc>>
               \/ ~marker /\ (\A x \in Hdr : h[x] = "none") /\ dir' = FALSE /\ pc' = "idle" /\ UNCHANGED <<marker, h>>
            /\ UNCHANGED <<arc, good, todo, vouched, ops>>
Fail     == pc \in {"mkdir", "unmark", "extract", "sums", "mark"} /\ pc' = "rollback" /\ UNCHANGED <<marker, h, dir, arc, good, todo, vouched, ops>>
Stuck    == pc = "rollback" /\ pc' = "idle" /\ UNCHANGED <<marker, h, dir, arc, good, todo, vouched, ops>>        \* roll-back itself failed
Crash    == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<marker, h, dir, arc, good, todo, vouched, ops>>

Next == \/ \E e \in BOOLEAN, a \in Arcs, g \in BOOLEAN : Start(e, a, g)
        \/ MkDir \/ Unmark \/ Extract \/ Sums \/ Mark \/ Remove \/ Rollback \/ Fail \/ Stuck \/ Crash
Spec == Init /\ [][Next]_vars

\* a version that counts as installed is complete and vouched for
Sound == dir /\ marker => \E a \in vouched : \A x \in Hdr : h[x] = a
\* without a crash or failing roll-back in progress an idle directory is complete or gone (checked as an action property)
Settled == [][pc = "sums" /\ pc' = "mark" => good]_vars
=============================================================================
