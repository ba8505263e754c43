------------------------------ MODULE GypVal ------------------------------
(* Values of a gyp build description, strings and paths.                     *)
(*                                                                           *)
(* A value is a node [t, s, k, l]:                                           *)
(*   t = "s" string s          t = "i" integer, decimal text in s            *)
(*   t = "l" list of nodes l   t = "d" dictionary, keys k (insertion order)  *)
(*                                     and values l, position by position    *)
(* All nodes have the same fields, so any two nodes can be compared.         *)
(* Operations that can fail return [ok |-> BOOLEAN, v |-> result].           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S(x)      == [t |-> "s", s |-> x, k |-> <<>>, l |-> <<>>]
IntN(x)   == [t |-> "i", s |-> x, k |-> <<>>, l |-> <<>>]
Lst(xs)   == [t |-> "l", s |-> "", k |-> <<>>, l |-> xs]
Dct(ks, vs) == [t |-> "d", s |-> "", k |-> ks, l |-> vs]
EmptyD    == Dct(<<>>, <<>>)
EmptyL    == Lst(<<>>)
IsScalar(n) == n.t \in {"s", "i"}

R(x)  == [ok |-> TRUE,  v |-> x, why |-> ""]
Err(w, x) == [ok |-> FALSE, v |-> x, why |-> w]

InSeq(x, sq) == \E i \in 1..Len(sq) : sq[i] = x
IxOf(x, sq)  == IF InSeq(x, sq)
                THEN CHOOSE i \in 1..Len(sq) : sq[i] = x /\ \A j \in 1..(i - 1) : sq[j] # x
                ELSE 0
RangeOf(sq)  == { sq[i] : i \in 1..Len(sq) }
DropAt(sq, i) == SubSeq(sq, 1, i - 1) \o SubSeq(sq, i + 1, Len(sq))
InsAt(sq, i, x) == \* insert so that x is at position i (or last)
    IF i > Len(sq) THEN Append(sq, x)
    ELSE SubSeq(sq, 1, i - 1) \o <<x>> \o SubSeq(sq, i, Len(sq))
LastOf(sq)   == sq[Len(sq)]

Has(d, key)  == InSeq(key, d.k)
Get(d, key)  == d.l[IxOf(key, d.k)]
GetOr(d, key, x) == IF Has(d, key) THEN Get(d, key) ELSE x
Put(d, key, x) ==
    LET i == IxOf(key, d.k)
    IN  IF i = 0 THEN Dct(Append(d.k, key), Append(d.l, x))
        ELSE Dct(d.k, [d.l EXCEPT ![i] = x])
Del(d, key)  ==
    LET i == IxOf(key, d.k)
    IN  IF i = 0 THEN d ELSE Dct(DropAt(d.k, i), DropAt(d.l, i))

\* truth of a flag value as the generators see it
Truthy(n) == CASE n.t = "s" -> n.s # "" [] n.t = "i" -> n.s # "0" [] OTHER -> n.l # <<>>

RECURSIVE FoldSeq_(_, _, _, _)
FoldSeq_(op(_, _), acc, sq, i) == IF i > Len(sq) THEN acc ELSE FoldSeq_(op, op(acc, sq[i]), sq, i + 1)
Fold(op(_, _), acc, sq) == FoldSeq_(op, acc, sq, 1)

RECURSIVE Flat(_)
Flat(sqs) == IF sqs = <<>> THEN <<>> ELSE Head(sqs) \o Flat(Tail(sqs))

RECURSIVE SetToSeq_(_)
SetToSeq_(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetToSeq_(X \ {x})

RECURSIVE Unify(_)
Unify(sq) == IF sq = <<>> THEN <<>>
             ELSE LET r == Unify(SubSeq(sq, 1, Len(sq) - 1))
                  IN  IF InSeq(LastOf(sq), r) THEN r ELSE Append(r, LastOf(sq))

\* ------------------------------------------------------------- equality
\* Dictionaries are equal when they bind the same keys to equal values, in
\* whatever order; the final tree has no integers (they became strings).
RECURSIVE Same(_, _)
Same(a, b) ==
    CASE a.t = "d" -> /\ b.t = "d"
                      /\ Len(a.k) = Len(b.k)
                      /\ \A i \in 1..Len(a.k) : Has(b, a.k[i]) /\ Same(a.l[i], Get(b, a.k[i]))
      [] a.t = "l" -> /\ b.t = "l"
                      /\ Len(a.l) = Len(b.l)
                      /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])
      [] OTHER     -> IsScalar(b) /\ a.s = b.s

\* -------------------------------------------------------------- strings
Ch(s, i)  == SubSeq(s, i, i)
StartsAt(s, p, sub) == p + Len(sub) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(sub) - 1) = sub
StartsWith(s, sub) == StartsAt(s, 1, sub)
EndsWith(s, sub)   == Len(s) >= Len(sub) /\ StartsAt(s, Len(s) - Len(sub) + 1, sub)
Tl(s, n)  == SubSeq(s, n + 1, Len(s))          \* s without its first n characters
Cut(s, n) == SubSeq(s, 1, Len(s) - n)          \* s without its last n characters
RECURSIVE FindFrom(_, _, _)
FindFrom(s, sub, p) == IF p + Len(sub) - 1 > Len(s) THEN 0
                       ELSE IF StartsAt(s, p, sub) THEN p ELSE FindFrom(s, sub, p + 1)
Contains(s, sub) == FindFrom(s, sub, 1) # 0
RECURSIVE RFindFrom(_, _, _)
RFindFrom(s, sub, p) == IF p < 1 THEN 0 ELSE IF StartsAt(s, p, sub) THEN p ELSE RFindFrom(s, sub, p - 1)
RFind(s, sub) == RFindFrom(s, sub, Len(s))
RECURSIVE Split(_, _)
Split(s, sep) == LET p == FindFrom(s, sep, 1)
                 IN  IF p = 0 THEN <<s>>
                     ELSE <<SubSeq(s, 1, p - 1)>> \o Split(Tl(s, p + Len(sep) - 1), sep)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t", "\n"} THEN LStrip(Tl(s, 1)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Ch(s, Len(s)) \in {" ", "\t", "\n"} THEN RStrip(Cut(s, 1)) ELSE s
Strip(s)  == LStrip(RStrip(s))
Digits == {"0","1","2","3","4","5","6","7","8","9"}
AllIn(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs
CanonInt(s) ==
    \/ s = "0"
    \/ LET b == IF s # "" /\ Ch(s, 1) = "-" THEN Tl(s, 1) ELSE s
       IN  b # "" /\ Ch(b, 1) \in (Digits \ {"0"}) /\ AllIn(b, Digits)
Scalar(str) == IF CanonInt(str) THEN IntN(str) ELSE S(str)

\* ---------------------------------------------------------------- paths
\* posix paths, relative to the directory gyp runs in
RECURSIVE NormC(_, _)
NormC(cs, acc) ==
    IF cs = <<>> THEN acc
    ELSE LET c == Head(cs) IN
         IF c = "" \/ c = "." THEN NormC(Tail(cs), acc)
         ELSE IF c = ".." /\ acc # <<>> /\ LastOf(acc) # ".."
              THEN NormC(Tail(cs), SubSeq(acc, 1, Len(acc) - 1))
              ELSE NormC(Tail(cs), Append(acc, c))
PathC(p)   == NormC(Split(p, "/"), <<>>)
UnC(cs)    == IF cs = <<>> THEN "." ELSE Join(cs, "/")
IsAbs(p)   == StartsWith(p, "/")
NormPath(p) == IF IsAbs(p) THEN "/" \o Join(SelectSeq(PathC(p), LAMBDA c : c # ".."), "/") ELSE UnC(PathC(p))
DirName(p) == LET q == RFind(p, "/") IN IF q = 0 THEN "" ELSE IF q = 1 THEN "/" ELSE SubSeq(p, 1, q - 1)
PJoin(a, b) == IF IsAbs(b) \/ a = "" THEN b ELSE IF EndsWith(a, "/") THEN a \o b ELSE a \o "/" \o b
RECURSIVE CommonLen(_, _)
CommonLen(a, b) == IF a = <<>> \/ b = <<>> THEN 0
                   ELSE IF Head(a) # Head(b) THEN 0 ELSE 1 + CommonLen(Tail(a), Tail(b))
\* the path from directory dirTo to p; "" when they are the same place.
RelPath(p, dirTo) ==
    LET a == PathC(p)  b == PathC(dirTo)
        n == CommonLen(a, b)
    IN  Join([i \in 1..(Len(b) - n) |-> ".."] \o SubSeq(a, n + 1, Len(a)), "/")

\* sections whose items are paths
BasePathSections == {"destination", "files", "include_dirs", "inputs", "libraries", "outputs", "sources"}
RECURSIVE StripOps(_)
StripOps(k) == IF k # "" /\ Ch(k, Len(k)) \in {"=", "+", "?", "!"} THEN StripOps(Cut(k, 1)) ELSE k
IsPathSection(key) ==
    LET k == StripOps(key)
        b == IF k # "" /\ Ch(k, Len(k)) = "s" THEN Cut(k, 1) ELSE k
    IN  k \in BasePathSections \/ EndsWith(b, "_file") \/ EndsWith(b, "_path") \/ EndsWith(b, "_dir")
=============================================================================
