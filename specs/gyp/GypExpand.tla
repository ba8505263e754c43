------------------------------ MODULE GypExpand -----------------------------
(* Variable references, command expansions, conditions, and the phase-wise    *)
(* evaluation of a block.                                                      *)
EXTENDS GypMerge, GypFilter

\* ph: "early" | "late" | "latelate"
Sym(ph) == CASE ph = "early" -> "<" [] ph = "late" -> ">" [] OTHER -> "^"
CondKey(ph) == CASE ph = "early" -> "conditions" [] ph = "late" -> "target_conditions" [] OTHER -> ""

WordChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
              "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
              "0","1","2","3","4","5","6","7","8","9","_","-","."}
\* ---- POSIX shell quoting of one argument, and of a list
QuoteCs == {"\t","\n"," ","#","$","%","&","'","(",")","*",";","<","=",">","?","[","{","|","}","~"}
RECURSIVE EscChars(_)
EscChars(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in {"\"", "\\", "`"} THEN "\\" ELSE "") \o Ch(s, 1) \o EscChars(Tl(s, 1))
ShArg(s)  == LET q == IF s = "" \/ \E i \in 1..Len(s) : Ch(s, i) \in QuoteCs THEN "\"" ELSE "" IN q \o EscChars(s) \o q
ShList(ns) == Join([i \in 1..Len(ns) |-> ShArg(ns[i].s)], " ")
\* ---- splitting a string into arguments the way sh does (mode: "" | "'" | "\"")
RECURSIVE ShSplit(_, _, _, _, _)
ShSplit(s, mode, cur, open, acc) ==
    IF s = "" THEN (IF mode # "" THEN Err("shlex", <<>>) ELSE R(IF open THEN Append(acc, cur) ELSE acc))
    ELSE LET c == Ch(s, 1) r == Tl(s, 1) IN
    CASE mode = "" /\ c \in {" ", "\t", "\n"} -> ShSplit(r, "", "", FALSE, IF open THEN Append(acc, cur) ELSE acc)
      [] mode = "" /\ c \in {"'", "\""}       -> ShSplit(r, c, cur, TRUE, acc)
      [] mode = "" /\ c = "\\"                -> IF r = "" THEN Err("shlex", <<>>) ELSE ShSplit(Tl(r, 1), "", cur \o Ch(r, 1), TRUE, acc)
      [] mode # "" /\ c = mode                -> ShSplit(r, "", cur, TRUE, acc)
      [] mode = "\"" /\ c = "\\" /\ r # "" /\ Ch(r, 1) \in {"\"", "\\"} -> ShSplit(Tl(r, 1), mode, cur \o Ch(r, 1), TRUE, acc)
      [] OTHER                                -> ShSplit(r, mode, cur \o c, TRUE, acc)

\* ---- finding references
RECURSIVE SkipWord(_, _)
SkipWord(s, p) == IF p <= Len(s) /\ Ch(s, p) \in WordChars THEN SkipWord(s, p + 1) ELSE p
\* a reference starting at p: [p, type, open] or open = 0
RefAt(s, p, sym) ==
    IF ~StartsAt(s, p, sym) THEN [p |-> p, ty |-> "", open |-> 0, word |-> ""]
    ELSE LET ty == IF StartsAt(s, p + 1, "!@") THEN "!@" ELSE IF StartsAt(s, p + 1, "!") THEN "!"
                   ELSE IF StartsAt(s, p + 1, "@") THEN "@" ELSE IF StartsAt(s, p + 1, "|") THEN "|" ELSE ""
             q  == SkipWord(s, p + 1 + Len(ty))
             close == IF StartsAt(s, q, "(") THEN FindFrom(s, ")", q) ELSE 0
         IN  [p |-> p, ty |-> ty, open |-> IF close # 0 THEN q ELSE 0, word |-> SubSeq(s, p + 1 + Len(ty), q - 1)]
RECURSIVE Refs(_, _, _)
Refs(s, p, sym) ==
    IF p > Len(s) THEN <<>>
    ELSE LET r == RefAt(s, p, sym)
         IN  IF r.open = 0 THEN Refs(s, p + 1, sym)
             ELSE <<r>> \o Refs(s, FindFrom(s, ")", r.open) + 1, sym)
Closer(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] OTHER -> "}"
\* the position of the bracket that closes the one at p
RECURSIVE MatchBr(_, _, _)
MatchBr(s, p, stack) ==
    IF p > Len(s) THEN 0
    ELSE LET c == Ch(s, p) IN
         IF c \in {"(", "[", "{"} THEN MatchBr(s, p + 1, Append(stack, Closer(c)))
         ELSE IF c \in {")", "]", "}"}
              THEN IF stack = <<>> \/ LastOf(stack) # c THEN 0
                   ELSE IF Len(stack) = 1 THEN p ELSE MatchBr(s, p + 1, SubSeq(stack, 1, Len(stack) - 1))
              ELSE MatchBr(s, p + 1, stack)

\* ---- the world outside: results of commands, per kind, directory and text
\* cmds: <<[k, c, d, out, code], ...>>; k: "sh" a shell command, "arr" a list
\* of arguments run without a shell, "mod" the DoMain of a Python module,
\* "args" a script and a module that print their arguments in brackets
Cmd(cmds, k, c, d) == LET h == { i \in 1..Len(cmds) : cmds[i].k = k /\ cmds[i].c = c /\ cmds[i].d = d }
                      IN  IF h = {} THEN [k |-> k, c |-> c, d |-> d, out |-> "", code |-> 127] ELSE cmds[CHOOSE i \in h : TRUE]
\* the strings of a list that is written out
RECURSIVE ArrWords(_, _)
ArrWords(s, acc) ==  \* s: after "[" or ","
    LET t == LStrip(s) IN
    IF t = "" THEN Err("array", <<>>)
    ELSE IF Ch(t, 1) = "]" THEN (IF Strip(Tl(t, 1)) = "" THEN R(acc) ELSE Err("array", <<>>))
    ELSE IF Ch(t, 1) \notin {"'", "\""} THEN Err("array", <<>>)
    ELSE LET e == FindFrom(t, Ch(t, 1), 2)
             r == LStrip(Tl(t, e))
         IN  IF e = 0 \/ r = "" \/ Ch(r, 1) \notin {",", "]"} THEN Err("array", <<>>)
             ELSE ArrWords(IF Ch(r, 1) = "," THEN Tl(r, 1) ELSE r, Append(acc, SubSeq(t, 2, e - 1)))
CmdOut(cmds, k, c, d) ==
    LET ws == IF k = "arr" THEN ArrWords(Tl(c, 1), <<>>) ELSE ShSplit(c, "", "", FALSE, <<>>)
        n  == IF k = "mod" THEN 1 ELSE 2
        a  == { i \in 1..Len(cmds) : cmds[i].k = "args" /\ cmds[i].d = d /\ ws.ok /\ Len(ws.v) >= n
                                     /\ (IF k = "mod" THEN ws.v[1] = cmds[i].mod ELSE ws.v[1] = "sh" /\ ws.v[2] = cmds[i].c) }
        w  == Cmd(cmds, k, c, d)
    IN  IF ~ws.ok /\ (k = "arr" \/ w.code = 127) THEN Err("command", "")
        ELSE IF a # {} THEN R(Join([i \in 1..(Len(ws.v) - n) |-> "[" \o ws.v[n + i] \o "]"], ""))
        ELSE IF w.code # 0 THEN Err("command", "") ELSE R(RStrip(w.out))
\* ---- file lists: a reference is the name of a file that holds the items,
\* one per line; name and items stand for it here, in signs that nothing
\* else reads
MarkCs == << <<"<", "l">>, <<">", "g">>, <<"^", "c">>, <<"(", "o">>, <<")", "e">>, <<"[", "p">>, <<"]", "q">>, <<"{", "r">>, <<"}", "s">>,
             <<"\"", "t">>, <<"'", "u">>, <<"\\", "v">>, <<"+", "w">>, <<",", "x">>, <<":", "y">>, <<" ", "z">>, <<"$", "a">>, <<"`", "b">>, <<"=", "d">>, <<"!", "f">>, <<"/", "h">> >>
RECURSIVE Mark(_)
Mark(s) == IF s = "" THEN "" ELSE LET h == { i \in 1..Len(MarkCs) : MarkCs[i][1] = Ch(s, 1) }
                                  IN  (IF h = {} THEN Ch(s, 1) ELSE "+" \o MarkCs[CHOOSE i \in h : TRUE][2]) \o Mark(Tl(s, 1))
FileList(items) == items[1] \o ":" \o Join([i \in 1..(Len(items) - 1) |-> Mark(items[i + 1])], ",") \o ":"

\* ctx: [bf |-> build file, cmds |-> command table]
RECURSIVE Expand(_, _, _, _), ExpandRefs(_, _, _, _, _, _, _), ExpandOne(_, _, _, _, _, _),
          Items(_, _, _, _, _, _), PVList(_, _, _, _), ReExpand(_, _, _, _, _)

\* expansion of the items of a list: references that stand alone splice in
Items(ns, i, acc, ph, vars, ctx) ==
    IF i > Len(ns) THEN R(acc)
    ELSE IF ns[i].t = "s"
         THEN LET e == Expand(ns[i].s, ph, vars, ctx)
              IN  IF ~e.ok THEN Err(e.why, <<>>)
                  ELSE Items(ns, i + 1, IF e.v.t = "l" THEN acc \o e.v.l ELSE Append(acc, e.v), ph, vars, ctx)
         ELSE Items(ns, i + 1, Append(acc, ns[i]), ph, vars, ctx)

\* one reference of input s at r: result [ok, v |-> new node]
ExpandOne(s, r, ph, vars, ctx, whole) ==
    LET close == MatchBr(s, r.open, <<>>)
        raw   == SubSeq(s, r.open + 1, close - 1)
        alone == r.ty \in {"@", "!@"} /\ r.p = 1 /\ close = Len(s)
        fvars == IF r.ty = "|" THEN FilterD(vars) ELSE R(vars)  \* lists are filtered before they go to a file
        inner == IF fvars.ok THEN Expand(raw, ph, fvars.v, ctx) ELSE Err(fvars.why, EmptyL)
        name  == Strip(inner.v.s)
        kind  == IF r.word = "pymod_do_main" THEN "mod" ELSE IF StartsWith(LStrip(raw), "[") THEN "arr" ELSE "sh"
        val   == \* [ok, v |-> node]
            IF r.ty \in {"!", "!@"}
            THEN IF r.word \notin {"", "pymod_do_main"} THEN Err("cmdword", EmptyL)
                 ELSE LET c == CmdOut(ctx.cmds, kind, name, DirName(ctx.bf))
                      IN IF c.ok THEN R(S(c.v)) ELSE Err(c.why, EmptyL)
            ELSE IF r.ty = "|"
            THEN LET items == Split(name, " ")
                 IN  IF StartsWith(items[1], "/") THEN Err("filelist", EmptyL) ELSE R(S(FileList(items)))
            ELSE IF ~Has(vars, name)
                 THEN IF EndsWith(name, "!") \/ EndsWith(name, "/") THEN R(EmptyL) ELSE Err("undefined", EmptyL)
                 ELSE LET w == Get(vars, name) IN
                      IF w.t = "d" THEN Err("kind", EmptyL)
                      ELSE IF w.t = "l"
                      THEN IF ~EndsWith(name, "/") /\ \E i \in 1..Len(w.l) : ~IsScalar(w.l[i]) THEN Err("kind", EmptyL)
                           ELSE LET it == Items(w.l, 1, <<>>, ph, vars, ctx)
                                IN  IF it.ok THEN R(Lst(it.v)) ELSE Err(it.why, EmptyL)
                      ELSE R(w)
    IN  IF close = 0 THEN Err("brackets", EmptyL)
        ELSE IF ~inner.ok THEN inner
        ELSE IF inner.v.t = "l" THEN Err("kind", EmptyL)
        ELSE IF ~val.ok THEN val
        ELSE IF alone
             THEN IF val.v.t = "l" THEN val
                  ELSE LET sp == ShSplit(val.v.s, "", "", FALSE, <<>>)
                       IN  IF sp.ok THEN R(Lst([i \in 1..Len(sp.v) |-> S(sp.v[i])])) ELSE Err("shlex", EmptyL)
             ELSE R(S(SubSeq(s, 1, r.p - 1)
                      \o (IF val.v.t = "l" THEN ShList(val.v.l) ELSE val.v.s)
                      \o Tl(s, close)))

\* right to left over the references found in the original text
ExpandRefs(s, rs, n, ph, vars, ctx, orig) ==
    IF n = 0 THEN R(S(s))
    ELSE LET e == ExpandOne(s, rs[n], ph, vars, ctx, orig)
         IN  IF ~e.ok \/ e.v.t = "l" THEN e ELSE ExpandRefs(e.v.s, rs, n - 1, ph, vars, ctx, orig)

ReExpand(ns, i, ph, vars, ctx) ==  \* each item of a list result once more
    IF i > Len(ns) THEN R(EmptyL)
    ELSE LET e == IF ns[i].t = "s" THEN Expand(ns[i].s, ph, vars, ctx) ELSE R(ns[i])
             r == ReExpand(ns, i + 1, ph, vars, ctx)
         IN  IF ~e.ok THEN e ELSE IF ~r.ok THEN r ELSE R(Lst(<<e.v>> \o r.v.l))

Expand(s, ph, vars, ctx) ==
    IF CanonInt(s) THEN R(IntN(s))
    ELSE LET rs == Refs(s, 1, Sym(ph)) IN
    IF rs = <<>> THEN R(S(s))
    ELSE LET e == ExpandRefs(s, rs, Len(rs), ph, vars, ctx, s) IN
         IF ~e.ok THEN e
         ELSE IF e.v.t = "l"
              THEN IF e.v.l # <<>> /\ e.v.l[1].t = "l" THEN e
                   ELSE LET x == ReExpand(e.v.l, 1, ph, vars, ctx)
                        IN  IF x.ok THEN R(Lst([i \in 1..Len(x.v.l) |-> IF x.v.l[i].t = "s" THEN Scalar(x.v.l[i].s) ELSE x.v.l[i]])) ELSE x
              ELSE IF e.v.s = s THEN R(Scalar(s))
              ELSE Expand(e.v.s, ph, vars, ctx)
PVList(n, ph, vars, ctx) == n

\* ------------------------------------------------------------- conditions
\* expressions: disjunctions of conjunctions of (optionally negated)
\* comparisons  A == B, A != B, A in B  or a bare operand; an operand is a
\* quoted text, an integer or the name of a variable.
Operand(tok, vars) ==
    LET t == Strip(tok) IN
    IF t = "" THEN Err("syntax", S(""))
    ELSE IF Ch(t, 1) \in {"'", "\""}
         THEN IF Len(t) >= 2 /\ EndsWith(t, Ch(t, 1)) /\ FindFrom(t, Ch(t, 1), 2) = Len(t) THEN R(S(SubSeq(t, 2, Len(t) - 1)))
              ELSE Err("syntax", S(""))
    ELSE IF AllIn(t, Digits) \/ CanonInt(t) THEN (IF CanonInt(t) THEN R(IntN(t)) ELSE Err("syntax", S("")))
    ELSE IF ~AllIn(t, WordChars \ {"-", "."}) THEN Err("syntax", S(""))
    ELSE IF Has(vars, t) THEN R(Get(vars, t))
    ELSE Err("name", S(""))
Cmp(e, vars) ==
    LET pe == FindFrom(e, "==", 1)  pn == FindFrom(e, "!=", 1)  pi == FindFrom(e, " in ", 1)
        p  == IF pe # 0 THEN pe ELSE IF pn # 0 THEN pn ELSE pi
    IN  IF p = 0 THEN LET a == Operand(e, vars) IN IF a.ok THEN R(Truthy(a.v)) ELSE Err(a.why, FALSE)
        ELSE LET a == Operand(SubSeq(e, 1, p - 1), vars)
                 b == Operand(Tl(e, p + (IF pe # 0 \/ pn # 0 THEN 1 ELSE 3)), vars)
             IN  IF ~a.ok THEN Err(a.why, FALSE)
                 ELSE IF ~b.ok THEN Err(b.why, FALSE)
                 ELSE IF pe # 0 THEN R(a.v = b.v)
                 ELSE IF pn # 0 THEN R(a.v # b.v)
                 ELSE IF b.v.t = "l" THEN R(InSeq(a.v, b.v.l))
                 ELSE IF a.v.t = "s" /\ b.v.t = "s" THEN R(a.v.s = "" \/ Contains(b.v.s, a.v.s))
                 ELSE Err("type", FALSE)
Neg(e, vars) == LET t == Strip(e) IN
    IF StartsWith(t, "not ") THEN LET c == Cmp(Tl(t, 4), vars) IN IF c.ok THEN R(~c.v) ELSE c ELSE Cmp(t, vars)
\* short-circuit evaluation, left to right
RECURSIVE AndL(_, _), OrL(_, _)
AndL(es, vars) == LET h == Neg(es[1], vars) IN
    IF ~h.ok \/ ~h.v \/ Len(es) = 1 THEN h ELSE AndL(Tail(es), vars)
OrL(es, vars) == LET h == AndL(Split(es[1], " and "), vars) IN
    IF ~h.ok \/ h.v \/ Len(es) = 1 THEN h ELSE OrL(Tail(es), vars)
\* a syntax error anywhere is an error even where evaluation would not get
SyntaxBad(e) ==
    \E o \in RangeOf(Split(e, " or ")) : \E a \in RangeOf(Split(o, " and ")) :
        LET t == Strip(a)
            u == IF StartsWith(t, "not ") THEN Tl(t, 4) ELSE t
            pe == FindFrom(u, "==", 1) pn == FindFrom(u, "!=", 1) pi == FindFrom(u, " in ", 1)
            p  == IF pe # 0 THEN pe ELSE IF pn # 0 THEN pn ELSE pi
            parts == IF p = 0 THEN <<u>> ELSE <<SubSeq(u, 1, p - 1), Tl(u, p + (IF pe # 0 \/ pn # 0 THEN 1 ELSE 3))>>
        IN  \E x \in RangeOf(parts) : LET c == Operand(x, EmptyD) IN ~c.ok /\ c.why = "syntax"
EvalExpr(e, vars) == IF SyntaxBad(e) THEN Err("syntax", FALSE) ELSE OrL(Split(e, " or "), vars)

\* conditions item: <<expr, dict [, dict]>> or a chain <<expr, dict, expr, dict, ... [, dict]>>
\* result: [ok, v |-> <<>> or <<block>>]
RECURSIVE EvalCond(_, _, _, _, _, _)
EvalCond(c, i, found, ph, vars, ctx) ==
    IF i > Len(c) THEN R(found)
    ELSE IF i + 1 > Len(c) \/ c[i + 1].t # "d" \/ ~IsScalar(c[i]) THEN Err("condform", <<>>)
    ELSE LET hasElse == Len(c) > i + 1 /\ c[i + 2].t = "d"
             nxt     == IF hasElse THEN i + 3 ELSE i + 2
         IN  IF hasElse /\ nxt - 1 # Len(c) THEN Err("condform", <<>>)
             ELSE IF found # <<>> THEN EvalCond(c, nxt, found, ph, vars, ctx)
             ELSE LET x == Expand(c[i].s, ph, vars, ctx) IN
                  IF ~x.ok THEN Err(x.why, <<>>)
                  ELSE IF x.v.t # "s" THEN Err("condexpr", <<>>)
                  ELSE LET b == EvalExpr(x.v.s, vars) IN
                       IF ~b.ok THEN Err(b.why, <<>>)
                       ELSE EvalCond(c, nxt, IF b.v THEN <<c[i + 1]>> ELSE IF hasElse THEN <<c[i + 2]>> ELSE <<>>, ph, vars, ctx)

\* ------------------------------------------------------------------ scopes
Autos(vars, d) == Fold(LAMBDA acc, i : IF d.l[i].t \notin {"d", "x"} THEN Put(acc, "_" \o d.k[i], d.l[i]) ELSE acc,
                       vars, [i \in 1..Len(d.k) |-> i])
\* the definitions of a block's variables section become visible;
\* name% only gives a default
VarsOf(vars, d, key) ==
    LET vd == GetOr(d, "variables", EmptyD)
        One(acc, i) ==
            LET k == vd.k[i]  w == vd.l[i] IN
            IF w.t = "d" THEN acc
            ELSE IF ~EndsWith(k, "%") THEN Put(acc, k, w)
            ELSE LET n == Cut(k, 1) IN
                 IF Has(acc, n) THEN acc
                 ELSE Put(acc, n, IF key = "variables" /\ Has(d, n) THEN Get(d, n) ELSE w)
    IN  Fold(One, vars, [i \in 1..Len(vd.k) |-> i])
Scope(vars, d, key) == VarsOf(Autos(vars, d), d, key)

RECURSIVE EvalD(_, _, _, _, _), EvalL(_, _, _, _, _, _), Conds(_, _, _, _, _, _), Kids(_, _, _, _, _), Strs(_, _, _, _, _)

\* strings directly in the block
Strs(d, i, ph, vars, ctx) ==
    IF i > Len(d.k) THEN R(d)
    ELSE IF d.k[i] = "variables" \/ d.l[i].t # "s" THEN Strs(d, i + 1, ph, vars, ctx)
    ELSE LET e == Expand(d.l[i].s, ph, vars, ctx) IN
         IF ~e.ok THEN Err(e.why, d)
         ELSE IF ~IsScalar(e.v) THEN Err("listinstr", d)
         ELSE Strs(Dct(d.k, [d.l EXCEPT ![i] = e.v]), i + 1, ph, vars, ctx)
\* the conditions, one after the other, each seeing the same scope
Conds(d, cs, i, ph, vars, ctx) ==
    IF i > Len(cs) THEN R(d)
    ELSE IF cs[i].t # "l" \/ Len(cs[i].l) < 2 THEN Err("condform", d)
    ELSE LET c == EvalCond(cs[i].l, 1, <<>>, ph, vars, ctx) IN
         IF ~c.ok THEN Err(c.why, d)
         ELSE IF c.v = <<>> THEN Conds(d, cs, i + 1, ph, vars, ctx)
         ELSE LET b == EvalD(c.v[1], ph, vars, ctx, "") IN
              IF ~b.ok THEN Err(b.why, d)
              ELSE LET m == MergeD(d, b.v, ctx.bf, ctx.bf)
                   IN  IF ~m.ok THEN Err(m.why, d) ELSE Conds(m.v, cs, i + 1, ph, vars, ctx)
Kids(d, i, ph, vars, ctx) ==
    IF i > Len(d.k) THEN R(d)
    ELSE IF d.k[i] = "variables" \/ IsScalar(d.l[i]) THEN Kids(d, i + 1, ph, vars, ctx)
    ELSE LET e == IF d.l[i].t = "x" THEN Err("kind", d) ELSE IF d.l[i].t = "d" THEN EvalD(d.l[i], ph, vars, ctx, d.k[i]) ELSE EvalL(d.l[i].l, 1, <<>>, ph, vars, ctx)
         IN  IF ~e.ok THEN Err(e.why, d) ELSE Kids(Dct(d.k, [d.l EXCEPT ![i] = e.v]), i + 1, ph, vars, ctx)
EvalL(ns, i, acc, ph, vars, ctx) ==
    IF i > Len(ns) THEN R(Lst(acc))
    ELSE LET e == CASE ns[i].t = "x" -> Err("kind", EmptyL)
                    [] ns[i].t = "d" -> EvalD(ns[i], ph, vars, ctx, "")
                    [] ns[i].t = "l" -> EvalL(ns[i].l, 1, <<>>, ph, vars, ctx)
                    [] ns[i].t = "s" -> Expand(ns[i].s, ph, vars, ctx)
                    [] OTHER         -> R(ns[i])
         IN  IF ~e.ok THEN e
             ELSE EvalL(ns, i + 1, IF ns[i].t = "s" /\ e.v.t = "l" THEN acc \o e.v.l ELSE Append(acc, e.v), ph, vars, ctx)

EvalD(d, ph, varsIn, ctx, key) ==
    LET auto == Autos(varsIn, d)
        \* the variables section first, its entries visible to each other
        vraw == GetOr(d, "variables", EmptyD)
        pre  == Fold(LAMBDA acc, i : Put(acc, vraw.k[i], vraw.l[i]), auto, [i \in 1..Len(vraw.k) |-> i])
        vev  == IF Has(d, "variables") THEN EvalD(vraw, ph, pre, ctx, "variables") ELSE R(EmptyD)
        d1   == IF Has(d, "variables") THEN Put(d, "variables", vev.v) ELSE d
        st   == Strs(d1, 1, ph, VarsOf(pre, d1, key), ctx)
        ck   == CondKey(ph)
        d2   == st.v
        cs   == Get(d2, ck)
        co   == IF ck # "" /\ Has(d2, ck)
                THEN IF cs.t # "l" THEN Err("condform", d2) ELSE Conds(Del(d2, ck), cs.l, 1, ph, Scope(varsIn, d2, key), ctx)
                ELSE R(d2)
        d3   == co.v
    IN  IF ~vev.ok THEN Err(vev.why, d)
        ELSE IF ~st.ok THEN st
        ELSE IF ~co.ok THEN co
        ELSE Kids(d3, 1, ph, Scope(varsIn, d3, key), ctx)
=============================================================================
