-------------------------------- MODULE Python --------------------------------
(* Finding a Python: the candidates in order, each asked for the program it   *)
(* stands for and that program for its version, until one is good enough.     *)
(* An answer is [ok, out]: whether the program could be run and ended well,   *)
(* and what it printed.                                                       *)
EXTENDS Release

\* a world W: [win, force, config, env, places, asks, versions, launcher]
\* asks: command -> answer to "which executable are you", versions: path -> answer to "which version are you"
Cmd(c)   == [kind |-> "command", name |-> c]
Candidates(W) ==
    IF W.force # "" THEN <<Cmd(W.force)>>
    ELSE (IF W.config # "" THEN <<Cmd(W.config)>> ELSE <<>>) \o (IF W.env # "" THEN <<Cmd(W.env)>> ELSE <<>>)
         \o (IF W.win THEN <<[kind |-> "launcher", name |-> "py.exe"]>> ELSE <<>>)
         \o <<Cmd("python3"), Cmd("python")>>
         \o (IF W.win THEN [x \in 1..Len(W.places) |-> [kind |-> "place", name |-> W.places[x]]] ELSE <<>>)

Find(tab, n) == IF \E x \in RangeOf(tab) : x.name = n THEN (CHOOSE x \in RangeOf(tab) : x.name = n).answer ELSE [ok |-> FALSE, out |-> ""]
Supported(text) == LET v == Ver(text) IN v.ok /\ v.pre = "" /\ (~Below(v.major, 4) \/ (v.major = "3" /\ ~Below(v.minor, 6)))

\* the program a candidate stands for: [ok, path]
Stands(W, c) == IF c.kind = "place" THEN [ok |-> TRUE, path |-> c.name]
                ELSE LET a == Find(W.asks, c.name) IN [ok |-> a.ok /\ Strip(a.out) # "", path |-> Strip(a.out)]
Good(W, c) == LET p == Stands(W, c) IN p.ok /\ LET a == Find(W.versions, p.path) IN a.ok /\ Supported(Strip(a.out))

\* the programs run for one candidate
Runs(W, c) == LET p == Stands(W, c) IN
    (IF c.kind = "place" THEN <<>> ELSE <<[prog |-> c.name, asks |-> IF c.kind = "launcher" THEN "launcher" ELSE "path"]>>)
    \o (IF p.ok THEN <<[prog |-> p.path, asks |-> "version"]>> ELSE <<>>)

RECURSIVE Search(_, _, _)
Search(W, cs, ran) == IF cs = <<>> THEN [found |-> FALSE, path |-> "", ran |-> ran]
                      ELSE LET r == ran \o Runs(W, Head(cs)) IN
                           IF Good(W, Head(cs)) THEN [found |-> TRUE, path |-> Stands(W, Head(cs)).path, ran |-> r] ELSE Search(W, Tail(cs), r)

\* the places Windows installers put Python in, newest first
Places(E) ==
    LET drive == IF E.SystemDrive # "" THEN E.SystemDrive ELSE "C:"
        user  == IF E.USERNAME # "" THEN E.USERNAME ELSE IF E.USER # "" THEN E.USER ELSE E.osUser
        loc   == IF E.LOCALAPPDATA # "" THEN E.LOCALAPPDATA ELSE drive \o "\\" \o user \o "\\AppData\\Local"
        pf    == IF E.ProgramW6432 # "" THEN E.ProgramW6432 ELSE IF E.ProgramFiles # "" THEN E.ProgramFiles ELSE drive \o "\\Program Files"
        pf86  == IF E.ProgramFilesX86 # "" THEN E.ProgramFilesX86 ELSE pf \o " (x86)"
        P(v)  == (IF E.LOCALAPPDATA # "" \/ user # "" THEN <<loc \o "\\Programs\\Python\\Python" \o v \o "\\python.exe">> ELSE <<>>)
                 \o <<pf \o "\\Python" \o v \o "\\python.exe">>
                 \o (IF E.LOCALAPPDATA # "" \/ user # "" THEN <<loc \o "\\Programs\\Python\\Python" \o v \o "-32\\python.exe">> ELSE <<>>)
                 \o <<pf \o "\\Python" \o v \o "-32\\python.exe", pf86 \o "\\Python" \o v \o "-32\\python.exe">>
    IN  P("311") \o P("310") \o P("39") \o P("38")
=============================================================================
