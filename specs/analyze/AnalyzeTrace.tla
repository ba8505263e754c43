---------------------------- MODULE AnalyzeTrace -----------------------------
(* The change analysis: which supplied targets a set of changed files affects *)
(* (G13).  A record is a world W of build files (GypLoad) together with       *)
(*   cfile  how the question was asked: "good", or a way of asking badly      *)
(*   cf, tt, ac   changed files, test targets, additional compile targets     *)
(*   res    the answer: [error, status, tt, ct, inv] with inv = <<>> if absent*)
(* The answer is judged relationally where the code has a choice (which of    *)
(* several covering compile targets to name) and exactly everywhere else.     *)
EXTENDS GypLoad, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
Texts(n) == [x \in 1..Len(n.l) |-> n.l[x].s]

\* names of the files target q is made of, as paths from the top directory
Tracked(s) == s # "" /\ ~StartsWith(s, "!!!") /\ ~StartsWith(s, "$")
InputsOf(t, key) == Flat([j \in 1..Len(GetOr(t, key, EmptyL).l) |-> Texts(GetOr(GetOr(t, key, EmptyL).l[j], "inputs", EmptyL))])
FilesOf(q, t) ==
    LET l == SelectSeq(Texts(GetOr(t, "sources", EmptyL)) \o InputsOf(t, "actions") \o InputsOf(t, "rules"), Tracked)
    IN  { NormPath(PJoin(DirName(PQ(q).file), l[j])) : j \in 1..Len(l) }
FromTop(p, inc) == NormPath(PJoin(DirName(p), inc))
BuildFilesOf(W, p) == LET l == IncludedFiles(W, p) IN { FromTop(p, l[j]) : j \in 1..Len(l) }

Answer(W, l) ==
    LET T     == l.T
        Q     == RangeOf(T.k)
        Name(q) == PQ(q).name
        F     == RangeOf(W.cf)
        fmod  == { p \in RangeOf(l.D.k) : BuildFilesOf(W, p) \cap F # {} }
        deps  == DepFun(T)
        hit   == { q \in Q : PQ(q).file \in fmod \/ FilesOf(q, Get(T, q)) \cap F # {} }
        below == [q \in Q |-> ReachSet(Q, deps, deps[q])]                 \* proper: acyclic by now
        aff   == { q \in Q : q \in hit \/ below[q] \cap hit # {} }
        given == { NormPath(W.roots[j]) : j \in 1..Len(W.roots) }
        roots == { q \in Q : PQ(q).file \in given /\ \A p \in Q : q \notin deps[p] }
        tt    == RangeOf(W.tt)
        ac    == RangeOf(W.ac)
        named == (tt \cup ac) \ {"all"}
        inv   == { n \in named : \A q \in Q : Name(q) # n }
        wantTT == { n \in tt \ {"all"} : \E q \in aff : Name(q) = n } \cup (IF "all" \in tt /\ roots \cap aff # {} THEN {"all"} ELSE {})
        supplied == { q \in Q : Name(q) \in named } \cup (IF "all" \in tt \cup ac THEN roots ELSE {})
        cone  == { q \in Q : \E s \in supplied : q = s \/ q \in below[s] }
        Builds(q) == LET t == Get(T, q) IN Get(t, "type").s # "none" \/ GetOr(t, "actions", EmptyL).l # <<>> \/ GetOr(t, "rules", EmptyL).l # <<>>
        r     == W.res
        C     == { q \in Q : Name(q) \in RangeOf(r.ct) }
        extra == { q \in C : Name(q) \notin wantTT }
        Kind(q) == Get(Get(T, q), "type").s
    IN  IF hit = {} THEN
             Sel(r.status # "No dependencies", "nothing-matches-but:" \o r.status)
             \o Sel(r.tt # <<>> \/ r.ct # <<>>, "nothing-matches-but-targets-reported")
             \o Sel(RangeOf(r.inv) # inv, "invalid-targets")
        ELSE Sel(RangeOf(r.tt) # wantTT, "test-targets expected " \o ToString(wantTT) \o " got " \o ToString(r.tt))
             \o Sel(Len(r.tt) # Cardinality(RangeOf(r.tt)) \/ Len(r.ct) # Cardinality(RangeOf(r.ct)) \/ Len(r.inv) # Cardinality(RangeOf(r.inv)), "a-name-twice")
             \o Sel(RangeOf(r.inv) # inv, "invalid-targets expected " \o ToString(inv) \o " got " \o ToString(r.inv))
             \o Sel(r.status # (IF r.tt = <<>> /\ r.ct = <<>> THEN "No dependencies" ELSE "Found dependency"), "status:" \o r.status)
             \o Sel(\E n \in RangeOf(r.ct) : n # "all" /\ \A q \in Q : Name(q) # n, "unknown-compile-target")
             \o Sel("all" \in RangeOf(r.ct) /\ "all" \notin wantTT, "all-as-compile-target")
             \o Sel(~(wantTT \subseteq RangeOf(r.ct)), "a-test-target-is-not-compiled")
             \o Sel(\E q \in extra : q \notin aff, "unaffected-compile-target " \o ToString({ Name(q) : q \in extra \ aff }))
             \o Sel(\E q \in extra : q \notin cone, "compile-target-nobody-asked-for " \o ToString({ Name(q) : q \in extra \ cone }))
             \o (LET lost == { q \in aff \cap cone : Builds(q) /\ q \notin C /\ \A c \in C : q \notin below[c] }
                 IN  Sel(lost # {}, "affected-target-not-rebuilt " \o ToString({ Name(q) : q \in lost })))
             \* building a library does not build the libraries it names: one that nothing links is asked for itself
             \o (LET alone == { q \in hit \cap cone : Kind(q) = "static_library" /\ q \notin C
                                                    /\ \A p \in Q : q \in below[p] => Kind(p) \notin {"executable", "shared_library"} }
                 IN  Sel(alone # {}, "changed-library-nothing-links-not-rebuilt " \o ToString({ Name(q) : q \in alone })))
             \o (LET needless == { q \in extra : Kind(q) \notin {"executable", "static_library"}
                                                 /\ \E c \in C : Builds(c) /\ q \in below[c] }
                 IN  Sel(needless # {}, "compile-target-already-covered " \o ToString({ Name(q) : q \in needless })))

\* a forced include changed: everything is assumed to have changed
Forced(W) == \E j \in 1..Len(W.incl) : NormPath(W.incl[j]) \in RangeOf(W.cf)
ForcedAnswer(W) ==
    Sel(W.res.status # "Found dependency (all)", "status:" \o W.res.status)
    \o Sel(RangeOf(W.res.tt) # RangeOf(W.tt), "test-targets")
    \o Sel(RangeOf(W.res.ct) # RangeOf(W.tt) \cup RangeOf(W.ac), "compile-targets")

Clauses(W) ==
    LET l == Load(W) IN
    IF W.obs.hang THEN <<"hang">>
    ELSE IF ~l.ok THEN Sel(W.obs.ok, "accepted-but-invalid:" \o l.why)
    ELSE IF ~W.obs.ok THEN <<"rejected-but-valid">>
    ELSE IF W.cfile # "good" \/ W.cf = <<>> THEN Sel(~W.res.error, "bad-question-answered:" \o W.cfile)
    ELSE IF W.res.error THEN <<"good-question-refused">>
    ELSE IF Forced(W) THEN ForcedAnswer(W)
    ELSE Answer(W, l)

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
