------------------------------- MODULE Release --------------------------------
(* Which release a request is for, and where its files are.                   *)
(* A request is [word, target, distUrl, disturl, mirror, version, rel]: the   *)
(* first word, the options, the mirror variable ("" when unset), the running  *)
(* version and its release record [has, name, headersUrl, libUrl].            *)
EXTENDS GypVal

IdChars == Digits \cup {"-"} \cup {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
                                   "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Num(s) == s = "0" \/ (s # "" /\ AllIn(s, Digits) /\ Ch(s, 1) # "0")
IdOk(s) == s # "" /\ AllIn(s, IdChars)
PreOk(s) == LET p == Split(s, ".") IN \A i \in 1..Len(p) : IdOk(p[i]) /\ (AllIn(p[i], Digits) => Num(p[i]))
BuildOk(s) == LET p == Split(s, ".") IN \A i \in 1..Len(p) : IdOk(p[i])

\* a version: [ok, major, minor, patch (texts), pre]
NoVer == [ok |-> FALSE, major |-> "", minor |-> "", patch |-> "", pre |-> ""]
Ver(text) ==
    LET s0 == Strip(text)
        s  == IF StartsWith(s0, "v") THEN Tl(s0, 1) ELSE s0
        b  == FindFrom(s, "+", 1)
        nb == IF b = 0 THEN s ELSE SubSeq(s, 1, b - 1)
        d  == FindFrom(nb, "-", 1)
        core == Split(IF d = 0 THEN nb ELSE SubSeq(nb, 1, d - 1), ".")
    IN  IF /\ Len(core) = 3 /\ \A i \in 1..3 : Num(core[i])
           /\ (b = 0 \/ BuildOk(Tl(s, b)))
           /\ (d = 0 \/ PreOk(Tl(nb, d)))
        THEN [ok |-> TRUE, major |-> core[1], minor |-> core[2], patch |-> core[3], pre |-> IF d = 0 THEN "" ELSE Tl(nb, d)]
        ELSE NoVer
VText(v) == v.major \o "." \o v.minor \o "." \o v.patch \o (IF v.pre = "" THEN "" ELSE "-" \o v.pre)
Below(s, n) == \E k \in 0..(n - 1) : s = ToString(k)
\* older than 0.8.0 and so without headers to install
TooOld(v) == v.major = "0" /\ (Below(v.minor, 8) \/ (v.minor = "8" /\ v.patch = "0" /\ v.pre # ""))
Unpublished(v) == v.pre = "pre" \/ StartsWith(v.pre, "pre.")
\* releases whose headers come in an archive of their own
HasHeaders(v) == /\ v.pre = ""
                 /\ \/ ~Below(v.major, 3)
                    \/ v.major = "0" /\ v.minor = "12" /\ ~Below(v.patch, 10)
                    \/ v.major = "0" /\ v.minor = "10" /\ ~Below(v.patch, 42)

\* ------------------------------------------------------------------- request
Asked(rq) == IF Ver(rq.word).ok THEN rq.word ELSE IF rq.target # "" THEN rq.target ELSE rq.version
Verdict(rq) == LET v == Ver(Asked(rq)) IN
    CASE ~v.ok -> "invalid" [] v.ok /\ TooOld(v) -> "too old" [] v.ok /\ ~TooOld(v) /\ Unpublished(v) -> "unpublished" [] OTHER -> "ok"

\* ---------------------------------------------------------------------- urls
RECURSIVE NoSlashes(_)
NoSlashes(s) == IF EndsWith(s, "/") THEN NoSlashes(Cut(s, 1)) ELSE s
HostEnd(u) == LET p == FindFrom(u, "://", 1) IN FindFrom(u, "/", p + 3)           \* where the path starts, or 0
DirUrl(u) == IF HostEnd(u) = 0 THEN u \o "/" ELSE SubSeq(u, 1, RFind(u, "/"))
PathOf(u) == IF HostEnd(u) = 0 THEN "/" ELSE Tl(u, HostEnd(u) - 1)
LastDir(u) == LET d == Cut(DirUrl(u), 1) IN Tl(d, RFind(d, "/"))                   \* name of the directory the file is in
Base(u)   == Tl(u, RFind(u, "/"))
\* an i/o project's name without its dot
Pre(s) == LET p == FindFrom(s, "io.js", 1) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p + 1) \o Tl(s, p + 2)

ArchDir(v) == IF v.major = "3" THEN {"win-x86", "win-ia32", "win-x64"} ELSE {"win-x86", "win-x64", "win-arm64"}
\* the import library: next to a given one, or below a directory
LibUrl(name, v, from, arch) ==
    IF Base(from) # "" /\ LastDir(from) \in ArchDir(v) THEN Cut(DirUrl(from), Len(LastDir(from)) + 1) \o "win-" \o arch \o "/" \o Base(from)
    ELSE DirUrl(from) \o (IF v.major # "0" THEN "win-" \o arch \o "/" ELSE IF arch = "x86" THEN "" ELSE arch \o "/") \o name \o ".lib"

Resolve(rq) ==
    LET v    == Ver(Asked(rq))
        text == VText(v)
        own  == rq.rel.has /\ text = VText(Ver(rq.version))                       \* the running release
        name == IF own THEN Pre(rq.rel.name) ELSE IF v.major \in {"1", "2", "3"} THEN "iojs" ELSE "node"
        over == IF rq.distUrl # "" THEN rq.distUrl ELSE IF rq.disturl # "" THEN rq.disturl ELSE rq.mirror
        site == (IF over # "" THEN NoSlashes(over) ELSE "https://nodejs.org/dist") \o "/v" \o text \o "/"
        rec  == own /\ rq.rel.headersUrl # "" /\ over = ""
        base == IF rec THEN DirUrl(rq.rel.headersUrl) ELSE site
        from == IF rec /\ rq.rel.libUrl # "" THEN rq.rel.libUrl ELSE base
        lib(a) == LET u == LibUrl(name, v, from, a) r == RelPath(PathOf(u), PathOf(base)) IN [url |-> u, path |-> IF r = "" THEN "." ELSE r]
    IN  [version |-> text, name |-> name, base |-> base,
         tarball |-> IF rec THEN rq.rel.headersUrl ELSE base \o name \o "-v" \o text \o (IF HasHeaders(v) THEN "-headers" ELSE "") \o ".tar.gz",
         shasums |-> base \o "SHASUMS256.txt",
         dir |-> (IF name = "node" THEN "" ELSE name \o "-") \o text,
         ia32 |-> lib("x86"), x64 |-> lib("x64"), arm64 |-> lib("arm64")]

\* ----------------------------------------------------------------- agreement
\* What holds of every resolution, said without reference to how it is found.
Agrees(rq, r) ==
    LET v == Ver(Asked(rq))
        over == IF rq.distUrl # "" THEN rq.distUrl ELSE IF rq.disturl # "" THEN rq.disturl ELSE rq.mirror
        own  == rq.rel.has /\ r.version = VText(Ver(rq.version))
        Swap(u, a) == LET p == RFind(u, "/win-" \o a \o "/") IN SubSeq(u, 1, p) \o "*" \o Tl(u, p + 5 + Len(a))
    IN  /\ EndsWith(r.base, "/") /\ r.shasums = r.base \o "SHASUMS256.txt"
        /\ DirUrl(r.tarball) = r.base                                              \* archive and checksum list lie side by side
        /\ (over # "" => StartsWith(r.base, NoSlashes(over)))                      \* an override wins over everything
        /\ (over = "" /\ (~own \/ rq.rel.headersUrl = "") => StartsWith(r.base, "https://nodejs.org/dist/"))
        /\ (~(own /\ rq.rel.headersUrl # "" /\ over = "") => EndsWith(r.base, "/v" \o r.version \o "/") /\ Contains(Base(r.tarball), r.name \o "-v" \o r.version)
              /\ \A l \in {r.ia32, r.x64, r.arm64} : l.url = r.base \o l.path)     \* one base for all
        /\ r.dir \in {r.version, r.name \o "-" \o r.version}
        /\ Cardinality({r.ia32.url, r.x64.url, r.arm64.url}) = 3
        /\ Base(r.ia32.url) = Base(r.x64.url) /\ Base(r.x64.url) = Base(r.arm64.url)
        /\ (v.major # "0" => Swap(r.ia32.url, "x86") = Swap(r.x64.url, "x64") /\ Swap(r.x64.url, "x64") = Swap(r.arm64.url, "arm64"))
=============================================================================
