------------------------------ MODULE IncModel ------------------------------
(* A builder of the kind generated makefiles and ninja files set up, under     *)
(* every small graph of steps, history of edits and parallel schedule: it      *)
(* redoes a step when its output is missing, its recorded command differs, or  *)
(* an input is newer, after the steps that make its inputs. Checked: such a    *)
(* builder does what Incremental.tla says is owed and only what it allows,     *)
(* each step once, and ends with what a build from scratch makes; after a      *)
(* stop too. (With SloppyOrder the builder starts steps early, with NoCommand  *)
(* it ignores commands: then TLC must find a violation.)                       *)
EXTENDS Incremental, TLC

CONSTANTS Sources, Steps, MaxEdits, MaxBuilds, SloppyOrder, NoCommand
VARIABLES reads, ver, cmd, file, mtime, rec, clk, phase, running, ran, known, left, builds, edits
vars == <<reads, ver, cmd, file, mtime, rec, clk, phase, running, ran, known, left, builds, edits>>

Name(s) == "s" \o ToString(s)
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN x \o " " \o Cat(S \ {x})
SrcsOf(s) == reads[s].src
MadeOf(s) == reads[s].made
Src(a) == a \o ToString(ver[a])
Content(s) == Name(s) \o "." \o ToString(cmd[s]) \o "(" \o Cat({ Src(a) : a \in SrcsOf(s) }) \o Cat({ file[t] : t \in MadeOf(s) }) \o ")"
RECURSIVE Scratch(_)
Scratch(s) == Name(s) \o "." \o ToString(cmd[s]) \o "(" \o Cat({ Src(a) : a \in SrcsOf(s) }) \o Cat({ Scratch(t) : t \in MadeOf(s) }) \o ")"

Init == /\ reads \in [Steps -> [src : SUBSET Sources, made : SUBSET Steps]]
        /\ \A s \in Steps : /\ \A t \in MadeOf(s) : t < s
                            /\ reads[s].src \cup { Name(t) : t \in MadeOf(s) } # {}
        /\ ver = [a \in Sources |-> 0] /\ cmd = [s \in Steps |-> 0]
        /\ file = [s \in Steps |-> "none"] /\ mtime = [x \in Sources \cup { Name(s) : s \in Steps } |-> 0]
        /\ rec = [s \in Steps |-> 99] /\ clk = 1 /\ phase = "edit" /\ running = {} /\ ran = <<>>
        /\ known = NoKnown /\ left = {} /\ builds = 0 /\ edits = 0

Want == [o \in { Name(s) : s \in Steps } |-> LET s == CHOOSE s \in Steps : Name(s) = o IN [cmd |-> ToString(cmd[s]), writes |-> {o}, deps |-> {}]]
Files == [a \in Sources |-> ToString(ver[a])]
RanSet == { ran[j].s : j \in 1..Len(ran) }
RanFn == [o \in { Name(s) : s \in RanSet } |-> LET x == ran[CHOOSE j \in 1..Len(ran) : Name(ran[j].s) = o] IN
             [cmd |-> ToString(x.cmd), reads |-> SrcsOf(x.s) \cup { Name(t) : t \in MadeOf(x.s) }, out |-> [p \in {o} |-> x.out]]]

Dirty(s) == \/ file[s] = "none"
            \/ ~NoCommand /\ rec[s] # cmd[s]
            \/ \E a \in SrcsOf(s) : mtime[a] > mtime[Name(s)]
            \/ \E t \in MadeOf(s) : mtime[Name(t)] > mtime[Name(s)]
RECURSIVE Needs(_)
Needs(s) == s \notin RanSet /\ (Dirty(s) \/ \E t \in MadeOf(s) : Needs(t))
Settled(s) == s \notin running /\ ~Needs(s)

EditSource == /\ phase = "edit" /\ edits < MaxEdits
              /\ \E a \in Sources : ver' = [ver EXCEPT ![a] = @ + 1] /\ mtime' = [mtime EXCEPT ![a] = clk]
              /\ clk' = clk + 1 /\ edits' = edits + 1
              /\ UNCHANGED <<reads, cmd, file, rec, phase, running, ran, known, left, builds>>
EditCommand == /\ phase = "edit" /\ edits < MaxEdits
               /\ \E s \in Steps : cmd' = [cmd EXCEPT ![s] = 1 - @]
               /\ edits' = edits + 1
               /\ UNCHANGED <<reads, ver, file, mtime, rec, clk, phase, running, ran, known, left, builds>>
\* what a step reads can change with a source it reads
EditReads == /\ phase = "edit" /\ edits < MaxEdits
             /\ \E s \in Steps, a \in Sources, t \in Steps :
                   /\ t < s /\ a \in SrcsOf(s)
                   /\ reads' = [reads EXCEPT ![s].made = IF t \in @ THEN @ \ {t} ELSE @ \cup {t}]
                   /\ ver' = [ver EXCEPT ![a] = @ + 1] /\ mtime' = [mtime EXCEPT ![a] = clk]
             /\ clk' = clk + 1 /\ edits' = edits + 1
             /\ UNCHANGED <<cmd, file, rec, phase, running, ran, known, left, builds>>
Build == /\ phase = "edit" /\ builds < MaxBuilds
         /\ phase' = "build" /\ builds' = builds + 1 /\ ran' = <<>>
         /\ UNCHANGED <<reads, ver, cmd, file, mtime, rec, clk, running, known, left, edits>>
StartStep == /\ phase = "build"
             /\ \E s \in Steps \ running : /\ s \notin RanSet /\ Dirty(s) /\ (SloppyOrder \/ \A t \in MadeOf(s) : Settled(t))
                                           /\ running' = running \cup {s}
             /\ UNCHANGED <<reads, ver, cmd, file, mtime, rec, clk, phase, ran, known, left, builds, edits>>
FinishStep == /\ phase = "build"
              /\ \E s \in running :
                    /\ running' = running \ {s} /\ ran' = Append(ran, [s |-> s, cmd |-> cmd[s], out |-> Content(s)])
                    /\ file' = [file EXCEPT ![s] = Content(s)] /\ mtime' = [mtime EXCEPT ![Name(s)] = clk] /\ rec' = [rec EXCEPT ![s] = cmd[s]]
              /\ clk' = clk + 1
              /\ UNCHANGED <<reads, ver, cmd, phase, known, left, builds, edits>>
\* the builder removes what the steps it was running have made so far
Stop == /\ phase = "build" /\ phase' = "edit" /\ running' = {}
        /\ file' = [s \in Steps |-> IF s \in running THEN "none" ELSE file[s]]
        /\ known' = AfterBuild(known, RanFn, Files, builds)
        /\ left' = left \cup { Name(s) : s \in RanSet \cup running } \cup Direct(known, Want, Files) \cup Older(known, Want, Files)
        /\ ran' = <<>>
        /\ UNCHANGED <<reads, ver, cmd, mtime, rec, clk, builds, edits>>
Ended == phase = "build" /\ running = {} /\ \A s \in Steps : ~Needs(s)
End == /\ Ended /\ phase' = "edit" /\ ran' = <<>>
       /\ known' = AfterBuild(known, RanFn, Files, builds) /\ left' = {}
       /\ UNCHANGED <<reads, ver, cmd, file, mtime, rec, clk, running, builds, edits>>
Next == EditSource \/ EditCommand \/ EditReads \/ Build \/ StartStep \/ FinishStep \/ Stop \/ End
Spec == Init /\ [][Next]_vars

After == AfterBuild(known, RanFn, Files, builds)
Complete == Ended => \A s \in Steps : file[s] = Scratch(s)
DoesOwed == Ended => Owed(known, After, Want, Files) \subseteq { Name(s) : s \in RanSet }
DoesAllowed == phase = "build" => { Name(s) : s \in RanSet \cup running } \subseteq Allowed(known, Want, Files, left)
OnceEach == Cardinality(RanSet) = Len(ran)
InOrder == \A j \in 1..Len(ran), k \in 1..Len(ran) : ran[k].s \in MadeOf(ran[j].s) => k < j
=============================================================================
