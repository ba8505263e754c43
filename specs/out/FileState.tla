----------------------------- MODULE FileState ------------------------------
(* A directory of files and what system calls do to it. Contents are strings, *)
(* Absent marks a name with no file. Renaming and linking are single steps:   *)
(* another process, or a reader after a crash, sees the directory before or   *)
(* after a call, and a write partly done.                                     *)
EXTENDS Naturals, Sequences

Absent == "(absent)"
Get(d, p) == IF p \in DOMAIN d THEN d[p] ELSE Absent
Put(d, p, c) == [q \in DOMAIN d \cup {p} |-> IF q = p THEN c ELSE d[q]]
\* call c = [op, a, b, d] done on directory f
Do(f, c) ==
    CASE c.op \in {"create", "opentrunc", "truncate"} -> Put(f, c.a, "")
      [] c.op \in {"opencreat", "openappend"} -> IF Get(f, c.a) = Absent THEN Put(f, c.a, "") ELSE f
      [] c.op = "write" -> Put(f, c.a, (IF Get(f, c.a) = Absent THEN "" ELSE Get(f, c.a)) \o c.d)
      [] c.op = "pwrite" -> Put(f, c.a, "(patched)")
      [] c.op = "rename" -> IF c.a = c.b THEN f ELSE Put(Put(f, c.b, Get(f, c.a)), c.a, Absent)
      [] c.op = "link" -> Put(f, c.b, Get(f, c.a))
      [] c.op = "unlink" -> Put(f, c.a, Absent)
      [] OTHER -> f
=============================================================================
