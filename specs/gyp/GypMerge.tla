------------------------------ MODULE GypMerge ------------------------------
(* Merging one settings block into another: list policies, singletons,       *)
(* path rebasing.                                                            *)
EXTENDS GypVal

\* an item that names a relative path of the source file, seen from the
\* receiving file
PathLit(item) ==
    LET i == IF item # "" /\ Ch(item, 1) \in {"\"", "'"} THEN 2 ELSE 1
    IN  Len(item) >= i /\ Ch(item, i) \in {"-", "/", "$", "<", ">", "^"}
Rebase(toF, froF, item) ==
    IF toF = froF \/ PathLit(item) THEN item
    ELSE LET n == NormPath(PJoin(RelPath(DirName(froF), DirName(toF)), item))
         IN  IF EndsWith(item, "/") THEN n \o "/" ELSE n
\* (a number names a file too; seen from elsewhere it is no longer a number)
RebaseN(toF, froF, n) ==
    LET p == Rebase(toF, froF, n.s) IN IF p = n.s THEN n ELSE S(p)

Policies == {"=", "+", "?"}
ListBase(key) == IF Ch(key, Len(key)) \in Policies THEN Cut(key, 1) ELSE key
ListExt(key)  == IF Ch(key, Len(key)) \in Policies THEN Ch(key, Len(key)) ELSE ""
Conflicts(key) ==
    LET b == ListBase(key) IN
    CASE ListExt(key) = "=" -> {b, b \o "?"}
      [] ListExt(key) = "+" -> {b \o "=", b \o "?"}
      [] ListExt(key) = "?" -> {b, b \o "=", b \o "+"}
      [] OTHER              -> {b \o "=", b \o "?"}

\* a single-valued item: it appears at most once through merging
Single(n) == IsScalar(n) /\ ~(n.t = "s" /\ StartsWith(n.s, "-"))

RECURSIVE MergeD(_, _, _, _), MergeItem(_, _, _, _), MergeL(_, _, _, _, _, _), MergeLs(_, _, _, _, _, _, _, _)

\* the copy of one list item as seen from the receiving file
MergeItem(item, toF, froF, paths) ==
    CASE item.t = "x" -> Err("kind", EmptyL)
      [] IsScalar(item) -> R(IF paths THEN RebaseN(toF, froF, item) ELSE item)
      [] item.t = "d"   -> MergeD(EmptyD, item, toF, froF)
      [] OTHER          -> MergeL(EmptyL, item, toF, froF, FALSE, TRUE)

MergeLs(to, items, i, toF, froF, paths, append, at) ==
    IF i > Len(items) THEN R(Lst(to))
    ELSE LET c == MergeItem(items[i], toF, froF, paths)
             single == Single(items[i])
         IN  IF ~c.ok THEN c
             ELSE IF append
             THEN MergeLs(IF single /\ InSeq(c.v, to) THEN to ELSE Append(to, c.v),
                          items, i + 1, toF, froF, paths, append, at)
             ELSE \* the item moves to the front block
                  LET front == SubSeq(to, 1, at)
                      rest  == SubSeq(to, at + 1, Len(to))
                      keepF == IF single THEN SelectSeq(front, LAMBDA x : x # c.v) ELSE front
                      keepR == IF single THEN SelectSeq(rest, LAMBDA x : x # c.v) ELSE rest
                  IN  MergeLs(keepF \o <<c.v>> \o keepR, items, i + 1, toF, froF, paths, append, Len(keepF) + 1)

MergeL(to, fro, toF, froF, paths, append) == MergeLs(to.l, fro.l, 1, toF, froF, paths, append, 0)

MergeKey(to, fro, key, toF, froF) ==
    LET v == Get(fro, key) IN
    IF v.t = "x" THEN Err("kind", to)
    ELSE IF Has(to, key) /\ (IF IsScalar(v) THEN ~IsScalar(Get(to, key)) ELSE v.t # Get(to, key).t)
    THEN Err("incompatible", to)
    ELSE CASE IsScalar(v) ->
                  R(Put(to, key, IF IsPathSection(key) THEN RebaseN(toF, froF, v) ELSE v))
           [] v.t = "d" ->
                  LET m == MergeD(GetOr(to, key, EmptyD), v, toF, froF)
                  IN  IF m.ok THEN R(Put(to, key, m.v)) ELSE Err(m.why, to)
           [] OTHER ->
                  LET b   == ListBase(key)
                      ext == ListExt(key)
                      t0  == IF ext = "=" THEN Put(to, b, EmptyL) ELSE to
                  IN  IF \E c \in Conflicts(key) : Has(fro, c) THEN Err("policies", to)
                      ELSE IF ext = "?" /\ Has(t0, b) THEN R(t0)
                      ELSE IF Has(t0, b) /\ Get(t0, b).t # "l" THEN Err("incompatible", to)
                      ELSE LET m == MergeL(GetOr(t0, b, EmptyL), v, toF, froF, IsPathSection(b), ext # "+")
                           IN  IF m.ok THEN R(Put(t0, b, m.v)) ELSE Err(m.why, to)

MergeD(to, fro, toF, froF) ==
    Fold(LAMBDA acc, key : IF acc.ok THEN MergeKey(acc.v, fro, key, toF, froF) ELSE acc, R(to), fro.k)
=============================================================================
