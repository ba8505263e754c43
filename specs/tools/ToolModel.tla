------------------------------ MODULE ToolModel ------------------------------
(* Every way to name one compiler in the three places, for both generators:   *)
(* what follows from the rules for the one who names it.                      *)
EXTENDS ToolRules, TLC
CONSTANT Tool
GKeys == {Tool, Tool \o "_target", Tool \o "_host", "GYP_CROSSCOMPILE"}
BKeys == {Tool}
MKeys == {Tool, Tool \o ".host", Tool \o "_wrapper", Tool \o ".host_wrapper"}
VARIABLES g, b, m, last
Val(place, ks) == [k \in ks |-> <<place \o k>>]
Init == /\ g \in { Val("g:", ks) : ks \in SUBSET GKeys }
        /\ b \in { Val("b:", ks) : ks \in SUBSET BKeys }
        /\ m \in { Val("m:", ks) : ks \in SUBSET MKeys }
        /\ last = "start"
\* one setting more
Next == \/ \E k \in GKeys \ DOMAIN g : g' = Val("g:", DOMAIN g \cup {k}) /\ last' = "g:" \o k /\ UNCHANGED <<b, m>>
        \/ \E k \in BKeys \ DOMAIN b : b' = Val("b:", DOMAIN b \cup {k}) /\ last' = "b:" \o k /\ UNCHANGED <<g, m>>
        \/ \E k \in MKeys \ DOMAIN m : m' = Val("m:", DOMAIN m \cup {k}) /\ last' = "m:" \o k /\ UNCHANGED <<g, b>>
Spec == Init /\ [][Next]_<<g, b, m, last>>
P(gen, ts) == Programs(gen, g, b, m, Tool, FALSE, ts)
Gens == {"make", "ninja"}
Words(S) == UNION { { w[i] : i \in 1..Len(w) } : w \in S }
\* there is always exactly one answer for a compiler, and it is not empty
One == \A gen \in Gens, ts \in {"target", "host"} : Tool \in {"CC", "CXX"} => Cardinality(P(gen, ts)) = 1 /\ <<>> \notin P(gen, ts)
\* the generator's environment wins over the project
EnvWins == \A gen \in Gens : Opt(g, Tool) # <<>> => ("m:" \o Tool) \notin Words(P(gen, "target"))
\* what is for the one toolset decides it, and never reaches the other by name of the host
Particular == \A gen \in Gens : /\ Opt(g, Tool \o "_target") # <<>> => ("g:" \o Tool \o "_target") \in Words(P(gen, "target"))
                                /\ (Opt(g, Tool \o "_host") # <<>> /\ Tool \in {"CC", "CXX"}) => ("g:" \o Tool \o "_host") \in Words(P(gen, "host"))
                                /\ ("g:" \o Tool \o "_host") \notin Words(P(gen, "target"))
                                /\ ("m:" \o Tool \o ".host") \notin Words(P(gen, "target"))
\* a builder's environment only matters to make
NinjaFixed == Words(P("ninja", "target")) \cap { "b:" \o Tool } = {}
\* a setting that is added either is what now runs, or changes nothing of the choice (a wrapper may be put before it)
Local == [][\A gen \in Gens, ts \in {"target", "host"} :
              LET old == Programs(gen, g, b, m, Tool, FALSE, ts) new == Programs(gen, g', b', m', Tool, FALSE, ts)
              IN  (Tool \in {"CC", "CXX"} /\ old # new) => last' \in Words(new)]_<<g, b, m, last>>
\* control
NeverHost == \A gen \in Gens : P(gen, "host") = P(gen, "target")
=============================================================================
