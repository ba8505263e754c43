----------------------------- MODULE CacheTrace -------------------------------
(* Judges recorded histories of cache commands against CacheRules.            *)
(* A record H: layout, arcs, win, and steps.  Every step holds the command    *)
(* and its surroundings, its exit code, whether it died or a system call was  *)
(* made to fail (fault), the requests it made and the cache it left (after).  *)
EXTENDS CacheRules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
RECURSIVE Join(_, _), FlatTo(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
FlatTo(f, n) == IF n = 0 THEN <<>> ELSE FlatTo(f, n - 1) \o f[n]

Count(reqs, k) == Cardinality({ x \in 1..Len(reqs) : reqs[x] = k })

\* whenever a version looks installed it is complete and vouched for
Sound(H, l, k) ==
    FlatTo([x \in 1..Len(l) |->
        LET e == l[x] IN
        IF ~Usable(H, e) \/ e.n \notin RangeOf(H.managed) THEN <<>>
        ELSE Sel(\A a \in Vouched(H, H.vname[e.n], k) : ~Complete(H, e, a), "looks-installed-but-incomplete:" \o e.n)
             \o Sel(\E arch \in RangeOf(H.archs) : LibIn(e, arch) # {} /\ ~(LibIn(e, arch) \subseteq { LibHash(d) : d \in VouchedLibs(H, H.vname[e.n], k) }),
                    "looks-installed-with-wrong-library:" \o e.n)], Len(l))

InstallClauses(H, b, s, k) ==
    LET n == s.dir                       \* where the version belongs
        e == Ent(b, n)
        f == Ent(s.after, n)
        p == s.plan
        layoutok == s.ensure /\ Usable(H, e)
        libonly == H.win /\ layoutok /\ LibIn(e, s.arch) = {}
        needs == ~layoutok \/ libonly
    IN  Sel(~OthersSame(b, s.after, n), "another-version-changed")
        \o (IF s.died THEN <<>>                                   \* Sound is all that can be asked
            ELSE IF ~needs THEN
                 IF s.fault THEN Sel(~Same(e, f), "installed-version-touched")
                 ELSE Sel(s.rc # 0, "installed-but-refused") \o Sel(s.reqs # <<>>, "needless-download") \o Sel(~Same(e, f), "installed-version-touched")
            ELSE IF s.rc = 0 THEN
                 Sel(~Usable(H, f), "success-without-a-usable-version")
                 \o Sel(~libonly /\ ~Complete(H, f, p.arc), "success-with-missing-headers")
                 \o Sel(~libonly /\ RangeOf(f.files) \ (RangeOf(e.files) \cup RangeOf(ArcOf(H, p.arc).files) \cup { <<q, LibHash(p.lib)>> : q \in LibPaths(s.arch) }) # {}, "unexpected-files")
                 \o Sel(H.win /\ LibIn(f, s.arch) # {LibHash(p.lib)}, "success-without-the-library")
                 \o Sel(~Good(H, p, H.win, libonly), "success-from-a-bad-release")
                 \o Sel(~p.local /\ ~libonly /\ Count(s.reqs, "tar") # 1, "headers-not-downloaded-once")
                 \o Sel((p.local \/ libonly) /\ Count(s.reqs, "tar") # 0, "headers-downloaded-needlessly")
                 \o Sel((~p.local \/ H.win) /\ Count(s.reqs, "sums") # 1, "checksums-not-downloaded-once")
                 \o Sel(H.win /\ Count(s.reqs, "lib:" \o s.arch) # 1, "library-not-downloaded-once")
                 \o Sel(\E x \in 1..Len(s.reqs) : s.reqs[x] \notin {"tar", "sums", "moved", "lib:" \o s.arch}, "other-download")
            ELSE Sel(~s.fault /\ Good(H, p, H.win, libonly), "good-release-refused")
                 \* (an extraction cut off half way may still be writing while it is rolled back)
                 \o Sel(~s.fault /\ f.dir /\ p.deliver # "cut" /\ ArcOf(H, p.arc).readable, "failed-install-left-behind"))

Clauses(H, k) ==
    LET s == H.steps[k]
        b == IF k = 1 THEN H.start ELSE H.steps[k - 1].after
    IN  Sel(s.outside, "touched-outside-the-cache")
        \o Sel(s.hang, "hang")
        \o Sound(H, s.after, k)
        \o (CASE s.op = "install" -> InstallClauses(H, b, s, k)
              [] s.op = "list" -> Sel(s.rc # 0 /\ ~s.fault, "list-failed")
                                  \o Sel(s.rc = 0 /\ ~s.fault /\ RangeOf(s.out) # { n \in { H.short[x.n] : x \in { x \in RangeOf(b) : H.inmain[x.n] } } : n # "current" }, "list-wrong")
                                  \o Sel(~OthersSame(b, s.after, ""), "list-changed-the-cache")
              [] s.op = "remove" ->
                    IF s.dir = "" THEN Sel(~OthersSame(b, s.after, ""), "removed-something-unnamed")
                    ELSE Sel(~OthersSame(b, s.after, s.dir), "another-version-changed")
                         \o Sel(~s.died /\ s.rc = 0 /\ Ent(s.after, s.dir).dir, "removed-but-still-there")
                         \o Sel(~s.died /\ ~s.fault /\ s.rc # 0, "remove-failed")
              [] s.op = "clean" -> Sel(~OthersSame(b, s.after, ""), "clean-changed-the-cache")
                                   \o Sel(~s.died /\ ~s.fault /\ s.rc # 0, "clean-failed")
                                   \o Sel(~(RangeOf(s.modafter) \subseteq RangeOf(s.modbefore)), "clean-created-files")
                                   \o Sel(~(RangeOf(s.modkeep) \subseteq RangeOf(s.modafter)), "clean-removed-sources")
                                   \o Sel(s.rc = 0 /\ ~(RangeOf(s.modafter) \subseteq RangeOf(s.modkeep)), "clean-left-something")
              [] OTHER -> <<>>)                                   \* the world changes the cache

All(H) == FlatTo([k \in 1..Len(H.steps) |-> LET c == Clauses(H, k) IN [x \in 1..Len(c) |-> "step " \o ToString(k) \o " " \o H.steps[k].op \o ": " \o c[x]]], Len(H.steps))
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == All(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
