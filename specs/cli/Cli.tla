--------------------------------- MODULE Cli ----------------------------------
(* The command line of node-gyp: from words and environment to options and a  *)
(* queue of commands, and how that queue is worked off.                       *)
(* Options are a dictionary node whose values are "s:" text or "b:true/false" *)
EXTENDS GypVal

Commands == {"build", "clean", "configure", "rebuild", "install", "list", "remove"}
BoolOpt  == {"help", "debug", "ensure", "force-process-config"}
TextOpt  == {"arch", "cafile", "directory", "make", "msvs-version", "solution", "proxy", "noproxy", "devdir", "nodedir", "loglevel",
             "python", "dist-url", "tarball", "jobs", "thin"}
Alias(w) == CASE w = "ls" -> "list" [] w = "rm" -> "remove" [] OTHER -> w
Short(n) == CASE n = "release" -> <<"--no-debug">> [] n = "C" -> <<"--directory">> [] n = "d" -> <<"--debug">> [] n = "j" -> <<"--jobs">>
              [] n = "silly" -> <<"--loglevel=silly">> [] n = "verbose" -> <<"--loglevel=verbose">> [] n = "silent" -> <<"--loglevel=silent">>
              [] OTHER -> <<>>
RECURSIVE Undash(_)
Undash(w) == IF StartsWith(w, "-") THEN Undash(Tl(w, 1)) ELSE w
Dashes(w) == w # "" /\ Len(w) > 1 /\ Undash(w) = ""

\* words -> [opts, remain]
RECURSIVE Parse(_, _, _)
Parse(ws, opts, remain) ==
    IF ws = <<>> THEN [opts |-> opts, remain |-> remain]
    ELSE LET w == Head(ws) rest == Tail(ws) IN
      IF Dashes(w) THEN [opts |-> opts, remain |-> remain \o rest]
      ELSE IF ~StartsWith(w, "-") \/ Len(w) = 1 THEN Parse(rest, opts, Append(remain, w))
      ELSE LET at  == FindFrom(w, "=", 1)
               n0  == IF at = 0 THEN Undash(w) ELSE Undash(SubSeq(w, 1, at - 1))
               sh  == IF n0 \in BoolOpt \cup TextOpt THEN <<>> ELSE Short(n0)
               rst == IF at = 0 THEN rest ELSE <<Tl(w, at)>> \o rest
           IN IF sh # <<>> THEN Parse(sh \o rst, opts, remain)
              ELSE LET no == StartsWith(n0, "no-")
                       n  == IF no THEN Tl(n0, 3) ELSE n0
                       la == IF rst = <<>> THEN "" ELSE Head(rst)
                   IN IF no \/ n \in BoolOpt \/ (n \notin TextOpt /\ at = 0)
                      THEN IF la \in {"true", "false"}
                           THEN Parse(Tail(rst), Put(opts, n, S("b:" \o (IF (la = "true") = ~no THEN "true" ELSE "false"))), remain)
                           ELSE Parse(rst, Put(opts, n, S("b:" \o (IF no THEN "false" ELSE "true"))), remain)
                      ELSE IF rst = <<>> THEN Parse(<<>>, Put(opts, n, S("s:")), remain)
                      ELSE IF n \in TextOpt /\ StartsWith(la, "-") /\ Len(la) > 1 /\ ~Dashes(la)
                           THEN Parse(rst, Put(opts, n, S("s:")), remain)       \* an option is no value
                      ELSE IF la = "--" THEN Parse(rst, Put(opts, n, S("s:true")), remain)   \* nor is the end of the options
                      ELSE Parse(Tail(rst), Put(opts, n, S("s:" \o Strip(la))), remain)

\* npm's configuration: environment variables npm_config_*, which win over the command line
RECURSIVE Dashed(_)
Dashed(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "_" THEN "-" ELSE Ch(s, 1)) \o Dashed(Tl(s, 1))
WithEnv(opts, env) == Fold(LAMBDA o, e : IF e[1] \in {"", "loglevel"} THEN o ELSE Put(o, Dashed(e[1]), S("s:" \o e[2])), opts, env)

\* the queue: commands with the words up to the next command
RECURSIVE QueueOf(_, _)
QueueOf(ws, q) ==
    IF ws = <<>> THEN q
    ELSE LET w == Alias(Head(ws)) IN
         IF w \in Commands THEN QueueOf(Tail(ws), Append(q, [name |-> w, args |-> <<>>]))
         ELSE IF q = <<>> THEN QueueOf(Tail(ws), q)                            \* words before the first command
         ELSE QueueOf(Tail(ws), [q EXCEPT ![Len(q)].args = Append(@, w)])

Opt(opts, n) == IF Has(opts, n) THEN Get(opts, n).s ELSE "none"
DevDir(opts, home) == LET v == Opt(opts, "devdir") IN
    IF v \in {"none", "s:"} THEN home \o "/.cache/node-gyp"
    ELSE LET t == Tl(v, 2) IN IF StartsWith(t, "~") THEN home \o Tl(t, 1) ELSE t

\* working the queue off: what runs (done) when command names behave as effect says
Effect(plans, n, k) == IF \E p \in RangeOf(plans) : p.name = n /\ p.k = k
                       THEN CHOOSE p \in RangeOf(plans) : p.name = n /\ p.k = k ELSE [name |-> n, k |-> k, how |-> "ok", push |-> <<>>]
RealPush(c) == IF c.name = "rebuild" THEN << [name |-> "clean", args |-> <<>>], [name |-> "configure", args |-> c.args], [name |-> "build", args |-> <<>>] >> ELSE <<>>
RECURSIVE Work(_, _, _)
\* -> [done |-> calls in order, ok |-> whether the run succeeds]
Work(q, done, plans) ==
    IF q = <<>> THEN [done |-> done, ok |-> TRUE]
    ELSE LET c == Head(q)
             k == Cardinality({ x \in 1..Len(done) : done[x].name = c.name }) + 1
             e == Effect(plans, c.name, k)
             d == Append(done, c)
         IN  IF e.how # "ok" THEN [done |-> d, ok |-> FALSE]
             ELSE Work(Tail(q) \o RealPush(c) \o e.push, d, plans)
=============================================================================
