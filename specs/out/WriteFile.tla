----------------------------- MODULE WriteFile ------------------------------
(* The write-if-changed writer (WriteOnDiff): the new content goes to a        *)
(* temporary file in pieces, is compared with the file, and is renamed over it *)
(* unless equal. Any number of writers, any step of which may fail or be the   *)
(* last one before its process dies; a reader may look at any time.            *)
(* (InPlace: a writer that writes to the file itself, CopyOver: one that       *)
(* copies the temporary file over it, RemoveFirst: one that removes the old    *)
(* file before it renames; TLC must find these out.)                           *)
EXTENDS FileState, TLC, FiniteSets

CONSTANTS Writers, Contents, InPlace, CopyOver, RemoveFirst
VARIABLES dir, pc, want, done, first, touched, faults
vars == <<dir, pc, want, done, first, touched, faults>>
T == "t"
Tmp(w) == "tmp" \o ToString(w)
Piece(c, n) == SubSeq(c, 2 * n - 1, IF 2 * n > Len(c) THEN Len(c) ELSE 2 * n)
Pieces(c) == (Len(c) + 1) \div 2

Init == /\ first \in Contents \cup {Absent}
        /\ want \in [Writers -> Contents]
        /\ dir = [p \in {T} |-> first]
        /\ pc = [w \in Writers |-> "begin"] /\ done = [w \in Writers |-> 0] /\ touched = FALSE /\ faults = 0
Mine(w) == IF InPlace THEN T ELSE Tmp(w)
Call(op, a, b, d) == dir' = Do(dir, [op |-> op, a |-> a, b |-> b, d |-> d])
Go(w, l) == pc' = [pc EXCEPT ![w] = l]

Begin(w) == /\ pc[w] = "begin" /\ Call("opentrunc", Mine(w), "", "") /\ Go(w, "write") /\ UNCHANGED <<want, done, first, touched, faults>>
Write(w) == /\ pc[w] = "write" /\ done[w] < Pieces(want[w])
            /\ Call("write", Mine(w), "", Piece(want[w], done[w] + 1))
            /\ done' = [done EXCEPT ![w] = @ + 1] /\ UNCHANGED <<pc, want, first, touched, faults>>
Compare(w) == /\ pc[w] = "write" /\ done[w] = Pieces(want[w])
              /\ Go(w, IF InPlace THEN "ok" ELSE IF Get(dir, T) = want[w] THEN "drop" ELSE IF RemoveFirst THEN "remove" ELSE IF CopyOver THEN "copy" ELSE "rename")
              /\ UNCHANGED <<dir, want, done, first, touched, faults>>
Drop(w) == /\ pc[w] = "drop" /\ Call("unlink", Tmp(w), "", "") /\ Go(w, "ok") /\ UNCHANGED <<want, done, first, touched, faults>>
Remove(w) == /\ pc[w] = "remove" /\ Call("unlink", T, "", "") /\ Go(w, "rename") /\ UNCHANGED <<want, done, first, touched, faults>>
CopyTrunc(w) == /\ pc[w] = "copy" /\ Call("opentrunc", T, "", "") /\ Go(w, "copy2") /\ touched' = TRUE /\ UNCHANGED <<want, done, first, faults>>
CopyData(w) == /\ pc[w] = "copy2" /\ Call("write", T, "", want[w]) /\ Go(w, "drop") /\ UNCHANGED <<want, done, first, touched, faults>>
Rename(w) == /\ pc[w] = "rename" /\ Call("rename", Tmp(w), T, "") /\ Go(w, "ok") /\ touched' = TRUE /\ UNCHANGED <<want, done, first, faults>>
Fail(w) == /\ pc[w] \notin {"begin", "ok", "error", "dead", "cleanup"} /\ Go(w, "cleanup") /\ faults' = faults + 1 /\ UNCHANGED <<dir, want, done, first, touched>>
Cleanup(w) == /\ pc[w] = "cleanup" /\ (IF InPlace THEN UNCHANGED dir ELSE Call("unlink", Tmp(w), "", "")) /\ Go(w, "error") /\ UNCHANGED <<want, done, first, touched, faults>>
Die(w) == /\ pc[w] \notin {"ok", "error", "dead"} /\ Go(w, "dead") /\ faults' = faults + 1 /\ UNCHANGED <<dir, want, done, first, touched>>
Next == \E w \in Writers : Begin(w) \/ Write(w) \/ Compare(w) \/ Drop(w) \/ Remove(w) \/ CopyTrunc(w) \/ CopyData(w) \/ Rename(w) \/ Fail(w) \/ Cleanup(w) \/ Die(w)
Spec == Init /\ [][Next]_vars

\* at every moment the file is whole: what it was, or what some writer writes
Whole == Get(dir, T) \in {first} \cup { want[w] : w \in Writers }
\* a writer alone that says it is done has written the file, one that does not has not lost it
Truthful == \A w \in Writers : Cardinality(Writers) = 1 /\ pc[w] = "ok" => Get(dir, T) = want[w]
\* an equal file is not touched
Untouched == (\A w \in Writers : want[w] = first) => ~touched
Tidy == \A w \in Writers : pc[w] \in {"ok", "error"} => Get(dir, Tmp(w)) = Absent
=============================================================================
