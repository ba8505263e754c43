------------------------------- MODULE CliTrace -------------------------------
(* Judges recorded runs of bin/node-gyp.js with recording commands: which     *)
(* commands ran, with which words, options, cache directory and directory.    *)
EXTENDS Cli, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
Clauses(W) ==
    LET p == Parse(W.argv, EmptyD, <<>>)
        opts == WithEnv(p.opts, W.env)
        q == QueueOf(p.remain, <<>>)
        w == Work(q, <<>>, W.plans)
        \* rebuild is the real one: it runs but is not recorded
        d == SelectSeq(w.done, LAMBDA c : c.name # "rebuild")
        n == Len(W.calls)
        dir == LET v == Opt(opts, "directory") IN IF v \in {"none", "s:"} \/ v = "b:false" THEN W.cwd
                                                  ELSE IF Tl(v, 2) \in RangeOf(W.dirs) THEN NormPath(PJoin(W.cwd, Tl(v, 2))) ELSE W.cwd
    IN  IF W.hang THEN <<"hang">>
        ELSE Sel([x \in 1..n |-> W.calls[x].name] # [x \in 1..Len(d) |-> d[x].name],
                 "commands expected " \o ToString([x \in 1..Len(d) |-> d[x].name]) \o " got " \o ToString([x \in 1..n |-> W.calls[x].name]))
             \o Sel((W.rc = 0) # (w.ok \/ q = <<>>), "exit status " \o ToString(W.rc))
             \o (IF n # Len(d) THEN <<>> ELSE
                 Flat([x \in 1..n |->
                    Sel(W.calls[x].args # d[x].args, "words of " \o d[x].name \o " expected " \o ToString(d[x].args) \o " got " \o ToString(W.calls[x].args))
                    \o Sel(~Same(W.calls[x].opts, opts), "options of " \o d[x].name \o " expected " \o ToString([k \in 1..Len(opts.k) |-> opts.k[k] \o "=" \o opts.l[k].s]))
                    \o Sel(W.calls[x].devdir # DevDir(opts, W.home), "cache directory " \o W.calls[x].devdir)
                    \o Sel(W.calls[x].cwd # dir, "directory " \o W.calls[x].cwd \o " expected " \o dir)]))

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
