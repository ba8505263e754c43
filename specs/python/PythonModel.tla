------------------------------ MODULE PythonModel ------------------------------
(* The search step by step, for every behaviour of every candidate.           *)
EXTENDS Python
CONSTANT Platform
Names == {"cfg", "envpy", "python3", "python"} \cup (IF Platform = "win" THEN {"py.exe"} ELSE {})
PathsM == {"/a", "/b"}
Answers == {[ok |-> FALSE, out |-> ""], [ok |-> FALSE, out |-> "/a"], [ok |-> TRUE, out |-> "/a"], [ok |-> TRUE, out |-> " /b"], [ok |-> TRUE, out |-> ""]}
VAnswers == {[ok |-> FALSE, out |-> "3.9.1"], [ok |-> TRUE, out |-> "3.9.1"], [ok |-> TRUE, out |-> "3.5.9"], [ok |-> TRUE, out |-> "3.9.0rc1"]}
VARIABLES W, todo, ran, res
vars == <<W, todo, ran, res>>
Init == /\ W \in [win : {Platform = "win"}, force : {"", "cfg"}, config : {"", "cfg"}, env : {"", "envpy"}, places : {IF Platform = "win" THEN <<"/a">> ELSE <<>>},
                  asks : [Names -> Answers], versions : [PathsM -> VAnswers]]
        /\ todo = <<>> /\ ran = <<>> /\ res = "start"
WW == [W EXCEPT !.asks = SetToSeq_({[name |-> n, answer |-> W.asks[n]] : n \in Names}), !.versions = SetToSeq_({[name |-> n, answer |-> W.versions[n]] : n \in PathsM})]
Start == res = "start" /\ todo' = Candidates(WW) /\ res' = "looking" /\ UNCHANGED <<W, ran>>
Step  == /\ res = "looking" /\ todo # <<>>
         /\ ran' = ran \o Runs(WW, Head(todo))
         /\ res' = IF Good(WW, Head(todo)) THEN Stands(WW, Head(todo)).path ELSE "looking"
         /\ todo' = Tail(todo) /\ UNCHANGED W
Fail  == res = "looking" /\ todo = <<>> /\ res' = "none" /\ UNCHANGED <<W, todo, ran>>
Next == Start \/ Step \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == res \notin {"start", "looking"}
\* the one found is the first good candidate, and nothing after it was run
First_ == Done => LET cs == Candidates(WW) IN
            IF res = "none" THEN \A x \in 1..Len(cs) : ~Good(WW, cs[x])
            ELSE \E x \in 1..Len(cs) : /\ Good(WW, cs[x]) /\ Stands(WW, cs[x]).path = res /\ \A y \in 1..(x - 1) : ~Good(WW, cs[y])
                                       /\ Len(todo) = Len(cs) - x
Whole == Done => LET s == Search(WW, Candidates(WW), <<>>) IN ran = s.ran /\ (s.found <=> res # "none")
\* what is found can be run and is supported
Sound == Done /\ res # "none" => res \in PathsM /\ W.versions[res].ok /\ Supported(W.versions[res].out)
Ends == <>Done
\* control: fails, since a forced choice is the only one
NeverNone == res # "none"
=============================================================================
