----------------------------- MODULE ReleaseTrace ------------------------------
(* Judges what lib/process-release.js resolved and what lib/install.js then   *)
(* asked the distribution site for.                                           *)
EXTENDS Release, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Diff(name, want, got) == IF want = got THEN <<>> ELSE <<name \o " expected " \o ToString(want) \o " got " \o ToString(got)>>
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
ArchName(a) == IF a = "ia32" THEN "ia32" ELSE a
Clauses(W) ==
    LET v == Ver(Asked(W)) IN
    IF ~v.ok THEN Diff("version", Asked(W), W.res.version) \o Sel(W.res.semver, "an invalid version was parsed")
                  \o Sel(W.inst.ok \/ W.inst.urls # <<>> \/ W.inst.made # <<>>, "an invalid version was installed")
    ELSE LET r == Resolve(W) vd == Verdict(W) IN
         Sel(~W.res.semver, "a valid version was refused")
         \o (IF ~W.res.semver THEN <<>> ELSE
             Diff("version", r.version, W.res.version) \o Diff("name", r.name, W.res.name) \o Diff("base", r.base, W.res.baseUrl)
             \o Diff("archive", r.tarball, W.res.tarballUrl) \o Diff("checksum list", r.shasums, W.res.shasumsUrl) \o Diff("directory", r.dir, W.res.versionDir)
             \o Diff("ia32 library", r.ia32, W.res.ia32) \o Diff("x64 library", r.x64, W.res.x64) \o Diff("arm64 library", r.arm64, W.res.arm64)
             \o Sel(~Agrees(W, [version |-> W.res.version, name |-> W.res.name, base |-> W.res.baseUrl, tarball |-> W.res.tarballUrl, shasums |-> W.res.shasumsUrl,
                                dir |-> W.res.versionDir, ia32 |-> W.res.ia32, x64 |-> W.res.x64, arm64 |-> W.res.arm64]), "the locations do not agree"))
         \o (IF vd # "ok" THEN Sel(W.inst.ok \/ W.inst.urls # <<>> \/ W.inst.made # <<>>, "a version that is " \o vd \o " was installed")
             ELSE LET lib == IF W.win THEN (IF W.arch = "ia32" THEN r.ia32 ELSE IF W.arch = "x64" THEN r.x64 ELSE r.arm64) ELSE [url |-> "", path |-> ""]
                      \* the stand-in site lists every file below the base by its path there
                      listed == Len(lib.path) < 2 \/ SubSeq(lib.path, 1, 2) # ".."
                  IN Diff("requests", {r.tarball, r.shasums} \cup (IF W.win THEN {lib.url} ELSE {}), RangeOf(W.inst.urls))
                     \o Sel(Len(W.inst.urls) # (IF W.win THEN 3 ELSE 2), "a location was asked for twice")
                     \o Diff("outcome", listed, W.inst.ok)
                     \o (IF listed THEN Diff("directories", <<r.dir>>, W.inst.made)
                                        \o Sel(W.win /\ ~InSeq(r.dir \o "/" \o W.arch \o "/" \o r.name \o ".lib", W.inst.files), "library not in place") ELSE <<>>))
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
