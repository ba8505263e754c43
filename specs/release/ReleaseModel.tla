----------------------------- MODULE ReleaseModel ------------------------------
(* Every combination of a small world of versions, records and overrides:     *)
(* each resolution agrees with itself, and no two releases share a directory. *)
EXTENDS Release
CONSTANT Big
Words == {"", "v4.1.2", "0.10.42", "junk", "4.0.0-rc.4"} \cup (IF Big THEN {"3.0.1", "v0.10.41", "0.7.9", "4.1.2+build", "11.0.0-pre"} ELSE {})
Targets == {"", "2.5.0", "20"} \cup (IF Big THEN {"4.0.0-rc.4", "v4.1.2", "0.8.0"} ELSE {})
Overs == {"", "https://m.example/d", "http://m.example:8080/win-x64/a//"}
Mirrors == {"", "https://mirror.example"}
Vers == {"v4.1.2", "v4.0.0-rc.4", "v3.0.1"}
H == "https://h.example/rel/v4.1.2/"
Rels == [has : {FALSE}, name : {"node"}, headersUrl : {""}, libUrl : {""}]
        \cup [has : {TRUE}, name : {"node", "io.js", "corp"}, headersUrl : {"", H \o "node-headers.tar.gz"}, libUrl : {"", H \o "win-x64/node.lib", "https://l.example/node.lib"}]
Requests == [word : Words, target : Targets, distUrl : Overs, disturl : {"", "https://d.example/x/"}, mirror : Mirrors, version : Vers, rel : Rels]
VARIABLE rq
Init == rq \in Requests
Next == UNCHANGED rq
Good == Verdict(rq) # "invalid" => Agrees(rq, Resolve(rq))
\* the directory names the release: nothing else is installed there
Apart == Verdict(rq) = "ok" => LET r == Resolve(rq) IN
             /\ r.dir = (IF r.name = "node" THEN r.version ELSE r.name \o "-" \o r.version)
             /\ Ver(r.version).ok /\ (r.name = "node" => Ver(r.dir).ok) /\ (r.name # "node" => ~Ver(r.dir).ok)
\* control: fails, because without overrides the running release's own record may point anywhere
AlwaysOfficial == Verdict(rq) = "ok" => StartsWith(Resolve(rq).base, "https://nodejs.org/dist/")
=============================================================================
