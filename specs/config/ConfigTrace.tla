----------------------------- MODULE ConfigTrace ------------------------------
(* Judges recorded runs of configure: what was installed, what was written,   *)
(* what a reader of the file gets, and how the generator was run.             *)
EXTENDS Config, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
RECURSIVE DiffNode(_, _, _)
\* the first places where two nodes differ
DiffNode(at, a, b) ==
    IF Exact(a, b) THEN <<>>
    ELSE IF a.t = "d" /\ b.t = "d"
         THEN LET ks == a.k \o SelectSeq(b.k, LAMBDA x : ~InSeq(x, a.k))
              IN Flat([j \in 1..Len(ks) |-> IF ~Has(a, ks[j]) THEN <<at \o "/" \o ks[j] \o " added: " \o ToString(Get(b, ks[j]))>>
                                            ELSE IF ~Has(b, ks[j]) THEN <<at \o "/" \o ks[j] \o " missing">> ELSE DiffNode(at \o "/" \o ks[j], Get(a, ks[j]), Get(b, ks[j]))])
    ELSE <<at \o " expected " \o ToString(a) \o " got " \o ToString(b)>>
Clauses(W) ==
    LET st == Stage(W)
        late == st \in {"no exports", "no zoslib", "generated"}
    IN  Sel(W.pythonAsked # <<Text(W.opts, "python")>>, "python asked for " \o ToString(W.pythonAsked))
        \o (IF st \in {"no python", "invalid version"} THEN Sel(W.installs # <<>>, "installed although " \o st)
            ELSE Sel([x \in 1..Len(W.installs) |-> W.installs[x].words] # (IF Installs(W) THEN << <<Resolve(Request(W)).version>> >> ELSE <<>>), "installs " \o ToString(W.installs))
                 \o Sel(\E x \in RangeOf(W.installs) : x.ensure # ~Truth(W.opts, "tarball"), "installed unconditionally or not at all"))
        \o Sel(W.wrote # late, "configuration written: " \o ToString(W.wrote) \o " at stage " \o st)
        \o (IF late /\ W.wrote
            THEN LET x == Configuration(W) IN
                 DiffNode("written", x, W.js) \o DiffNode("read by the generator", x, W.py) \o Sel(W.buildReads # "ok", "build cannot read it: " \o W.buildReads)
            ELSE <<>>)
        \o (IF st = "generated"
            THEN Sel(Len(W.spawned) # 1, "generator runs: " \o ToString(Len(W.spawned)))
                 \o (IF Len(W.spawned) # 1 THEN <<>> ELSE
                     Sel(W.spawned[1].cmd # "PY", "program " \o W.spawned[1].cmd) \o
                     Sel(W.spawned[1].argv # Command(W), "arguments expected " \o ToString(Command(W)) \o " got " \o ToString(W.spawned[1].argv)) \o
                     Sel(W.spawned[1].path # W.repo \o "/gyp/pylib" \o (IF W.pythonPath = "" THEN "" ELSE (IF W.platform = "win32" THEN ";" ELSE ":") \o W.pythonPath), "PYTHONPATH " \o W.spawned[1].path) \o
                     Sel(W.spawned[1].python # "PY", "PYTHON " \o W.spawned[1].python) \o
                     Sel(W.platform = "win32" /\ ~MakeFiles(W.words) /\ (W.spawned[1].msvs # ToString(IF W.vs.year > 2015 THEN 2015 ELSE W.vs.year) \/ W.spawned[1].vspath # W.vs.path),
                         "Visual Studio " \o W.spawned[1].msvs \o " at " \o W.spawned[1].vspath))
            ELSE Sel(W.spawned # <<>>, "generator run although " \o st))
        \o Sel(W.ok # (st = "generated" /\ W.exit = "0"), "reported " \o ToString(W.ok) \o " at stage " \o st \o ", generator exit " \o W.exit \o ": " \o W.why)
        \o Sel(W.root # NodeRoot(W.script, W.exe, W.platform = "win32"), "node directory expected " \o NodeRoot(W.script, W.exe, W.platform = "win32") \o " got " \o W.root)
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
