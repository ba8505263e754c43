------------------------------ MODULE GypFilter -----------------------------
(* Exclusion ("!") and pattern ("/") list filters.                            *)
EXTENDS GypVal

\* a small regular-expression matcher: literals, escaped characters, '.',
\* a starred atom, and the anchors ^ and $ at the ends.
AtomLen(p) == IF Ch(p, 1) = "\\" THEN 2 ELSE 1
AtomOk(p, c) == CASE Ch(p, 1) = "\\" -> c = Ch(p, 2) [] Ch(p, 1) = "." -> c # "\n" [] OTHER -> c = Ch(p, 1)
RECURSIVE MatchHere(_, _), MatchStar(_, _, _)
MatchHere(p, s) ==
    IF p = "" THEN TRUE
    ELSE IF p = "$" THEN s = "" \/ s = "\n"
    ELSE LET n == AtomLen(p) IN
         IF Len(p) > n /\ Ch(p, n + 1) = "*" THEN MatchStar(SubSeq(p, 1, n), Tl(p, n + 1), s)
         ELSE s # "" /\ AtomOk(p, Ch(s, 1)) /\ MatchHere(Tl(p, n), Tl(s, 1))
MatchStar(a, p, s) == MatchHere(p, s) \/ (s # "" /\ AtomOk(a, Ch(s, 1)) /\ MatchStar(a, p, Tl(s, 1)))
RECURSIVE SearchFrom(_, _)
SearchFrom(p, s) == MatchHere(p, s) \/ (s # "" /\ SearchFrom(p, Tl(s, 1)))
Search(p, s) == IF p # "" /\ Ch(p, 1) = "^" THEN MatchHere(Tl(p, 1), s) ELSE SearchFrom(p, s)

IsFilterKey(key) == key # "" /\ Ch(key, Len(key)) \in {"!", "/"}

\* the last rule that names an item decides; exclusion lists come first
Excluded(item, excl, pats) ==
    LET hits == { i \in 1..Len(pats) : Search(pats[i].l[2].s, item.s) }
    IN  IF hits = {} THEN InSeq(item, excl)
        ELSE pats[CHOOSE i \in hits : \A j \in hits : j <= i].l[1].s = "exclude"

FilterErr(d) ==
    \/ \E i \in 1..Len(d.k) : IsFilterKey(d.k[i]) /\ d.l[i].t # "l"
    \/ \E i \in 1..Len(d.k) : IsFilterKey(d.k[i]) /\ Has(d, Cut(d.k[i], 1)) /\ Get(d, Cut(d.k[i], 1)).t # "l"
    \/ \E i \in 1..Len(d.k) : IsFilterKey(d.k[i]) /\ Has(d, Cut(d.k[i], 1)) /\ Has(d, Cut(d.k[i], 1) \o "_excluded")
    \/ \E i \in 1..Len(d.k) : /\ EndsWith(d.k[i], "/") /\ Has(d, Cut(d.k[i], 1))
                              /\ \E j \in 1..Len(d.l[i].l) : d.l[i].l[j].l[1].s \notin {"exclude", "include"}

RECURSIVE FilterD(_), FilterN(_)
\* filters of this block only
FilterHere(d) ==
    LET bases == Unify(SelectSeq([i \in 1..Len(d.k) |-> IF IsFilterKey(d.k[i]) THEN Cut(d.k[i], 1) ELSE ""],
                                 LAMBDA b : b # "" /\ Has(d, b)))
        One(acc, b) ==
            LET items == Get(acc, b).l
                excl  == GetOr(acc, b \o "!", EmptyL).l
                pats  == GetOr(acc, b \o "/", EmptyL).l
                kept  == SelectSeq(items, LAMBDA x : ~Excluded(x, excl, pats))
                gone  == SelectSeq(items, LAMBDA x : Excluded(x, excl, pats))
                d1    == Put(acc, b, Lst(kept))
            IN  IF gone = <<>> THEN d1 ELSE Put(d1, b \o "_excluded", Lst(gone))
        done == Fold(One, d, bases)
        keep == SelectSeq([i \in 1..Len(done.k) |-> i], LAMBDA i : ~IsFilterKey(done.k[i]))
    IN  Dct([j \in 1..Len(keep) |-> done.k[keep[j]]], [j \in 1..Len(keep) |-> done.l[keep[j]]])

FilterN(n) ==
    CASE n.t = "d" -> FilterD(n)
      [] n.t = "l" -> LET rs == [i \in 1..Len(n.l) |-> FilterN(n.l[i])]
                      IN  IF \A i \in 1..Len(rs) : rs[i].ok THEN R(Lst([i \in 1..Len(rs) |-> rs[i].v])) ELSE Err("filter", n)
      [] OTHER     -> R(n)
FilterD(d) ==
    IF FilterErr(d) THEN Err("filter", d)
    ELSE LET h  == FilterHere(d)
             rs == [i \in 1..Len(h.l) |-> FilterN(h.l[i])]
         IN  IF \A i \in 1..Len(rs) : rs[i].ok THEN R(Dct(h.k, [i \in 1..Len(rs) |-> rs[i].v])) ELSE Err("filter", d)
=============================================================================
