---------------------------- MODULE Incremental -----------------------------
(* What an incremental build owes, and what it may do (G12).                  *)
(* A step is known by the file it is for. Of each step is                     *)
(*   want[o]   how it is now: [cmd, writes, deps]                             *)
(*   known[o]  how it last ran with success:                                  *)
(*      cmd, writes; n: in which build; out: content of what it made;         *)
(*      seen: what it read, with the version source files and the content     *)
(*      made files had                                                        *)
(*   files     source files and their version now                             *)
(* A build owes every step whose command or inputs are not those it last ran  *)
(* with. It may do more: what reads (or links a target that declares to       *)
(* depend on) something that is made again, though it come out the same.      *)
EXTENDS Naturals, Sequences, FiniteSets

NoKnown == [o \in {} |-> [cmd |-> "", writes |-> {}, n |-> 0, out |-> [p \in {} |-> ""], seen |-> [p \in {} |-> ""]]]
Makers(want, p) == { m \in DOMAIN want : p \in want[m].writes }

\* what no build so far can have taken into account
Direct(known, want, files) ==
    { o \in DOMAIN want :
        \/ o \notin DOMAIN known
        \/ known[o].cmd # want[o].cmd
        \/ \E p \in DOMAIN known[o].seen :
              IF p \in DOMAIN files THEN files[p] # known[o].seen[p] ELSE Makers(want, p) = {} }
\* steps with an input another step made since, with another content (after: known, with this build)
Stale(known, after, want, files) ==
    { o \in DOMAIN want \cap DOMAIN known :
        \E p \in DOMAIN known[o].seen \ DOMAIN files :
           \E m \in Makers(want, p) : m \in DOMAIN after /\ p \in DOMAIN after[m].out /\ after[m].out[p] # known[o].seen[p] }
Owed(known, after, want, files) == Direct(known, want, files) \cup Stale(known, after, want, files)

\* steps with an input made in a later build than their own last
Older(known, want, files) ==
    { o \in DOMAIN want \cap DOMAIN known :
        \E p \in DOMAIN known[o].seen \ DOMAIN files :
           \E m \in Makers(want, p) : m \in DOMAIN known /\ known[m].n > known[o].n }
RECURSIVE ThroughDeps(_, _, _)
\* steps that read, when they last ran, what a step of D makes, or that link a target which declares to depend on it
ThroughDeps(known, want, D) ==
    LET made == UNION { want[o].writes : o \in D }
        N == D \cup { o \in DOMAIN want \ D : (o \in DOMAIN known /\ DOMAIN known[o].seen \cap made # {}) \/ want[o].deps \cap made # {} }
    IN  IF N = D THEN D ELSE ThroughDeps(known, want, N)
Allowed(known, want, files, left) ==
    ThroughDeps(known, want, Direct(known, want, files) \cup Older(known, want, files) \cup (left \cap DOMAIN want))

\* known after the steps ran (a function from the step to [cmd, reads, out]) succeeded in build n
AfterBuild(known, ran, files, n) ==
    LET outOf(m) == IF m \in DOMAIN ran THEN ran[m].out ELSE known[m].out
        all == DOMAIN known \cup DOMAIN ran
        saw(p) == IF p \in DOMAIN files THEN files[p]
                  ELSE LET M == { m \in all : p \in DOMAIN outOf(m) } IN IF M = {} THEN "unknown" ELSE outOf(CHOOSE m \in M : TRUE)[p]
    IN  [o \in all |-> IF o \in DOMAIN ran
                       THEN [cmd |-> ran[o].cmd, writes |-> DOMAIN ran[o].out, n |-> n, out |-> ran[o].out, seen |-> [p \in ran[o].reads |-> saw(p)]]
                       ELSE known[o]]
=============================================================================
