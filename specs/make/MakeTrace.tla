------------------------------- MODULE MakeTrace ------------------------------
(* Judges recorded runs of lib/build.js.                                      *)
EXTENDS Make, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES i, bad
Sel(cond, name) == IF cond THEN <<name>> ELSE <<>>
Clauses(W) ==
    LET e == Expect(W) n == Len(W.calls) IN
    IF W.hang THEN <<"never finishes">>
    ELSE Sel(W.ok # e.ok, "expected " \o (IF e.ok THEN "success" ELSE "failure (" \o e.why \o ")") \o " got " \o (IF W.ok THEN "success" ELSE "failure: " \o W.err))
      \o Sel(W.escaped, "the failure is not reported to the caller: " \o W.err)
      \o Sel(e.why = "configure first" /\ FindFrom(W.err, "configure", 1) = 0, "message does not name configure: " \o W.err)
      \o Sel(n # (IF e.runs THEN 1 ELSE 0), "tool called " \o ToString(n) \o " times")
      \o (IF n # 1 \/ ~e.runs THEN <<>> ELSE
          LET c == W.calls[1] IN
             Sel(c.tool # e.tool, "tool expected " \o e.tool \o " got " \o c.tool)
          \o Sel(c.args # e.args, "arguments expected " \o ToString(e.args) \o " got " \o ToString(c.args))
          \o Sel(c.cwd # W.dir, "directory " \o c.cwd)
          \o Sel(c.out # W.out \/ c.err # W.errors, "what the tool prints does not reach the caller")
          \o (IF ~Linked(W) THEN <<>> ELSE
              Sel(c.link # W.conf.python, "python3 link expected " \o W.conf.python \o " got " \o c.link)
              \o Sel(c.path # W.dir \o "/build/node_gyp_bins:" \o W.path, "PATH " \o c.path)))
      \o Sel(~Win(W) /\ e.why = "tool" /\ W.left, "the Python link directory is left behind")
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Clauses(Cases[i + 1]) IN
             /\ bad' = Len(c)
             /\ (c # <<>> => PrintT("@BAD " \o ToString(i + 1) \o " " \o Join(SubSeq(c, 1, IF Len(c) > 6 THEN 6 ELSE Len(c)), " ;; ")))
=============================================================================
