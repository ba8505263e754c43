----------------------------- MODULE CacheRules -------------------------------
(* The header cache as a user of node-gyp sees it: version directories, each  *)
(* with a layout marker and header files, and what the commands may do to it. *)
(*   entry   [n name, dir, marker, files {<<path, content>>}]                 *)
(*   archive [files, readable]    what a tarball holds (headers only)         *)
(*   plan    how the distribution answers one install:                        *)
(*           local, status, deliver, arc, listed (archive whose checksum is   *)
(*           published, 0 none), sstatus, sdeliver, and for the import        *)
(*           library lstatus, ldeliver, lib, llisted                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s)  == { s[x] : x \in 1..Len(s) }
Through(d)  == d \in {"full", "redirect"}
ArcOf(H, id) == H.arcs[id]
Layout(H)   == H.layout

Usable(H, e)        == e.dir /\ e.marker >= Layout(H)
Complete(H, e, id)  == RangeOf(ArcOf(H, id).files) \subseteq RangeOf(e.files)
LibPaths(arch)      == { arch \o "/node.lib", arch \o "/iojs.lib" }        \* by the release's name
LibIn(e, arch)      == { f[2] : f \in { g \in RangeOf(e.files) : g[1] \in LibPaths(arch) } }

\* the release as published lets this install succeed
TarGood(H, p)  == /\ p.local \/ (p.status = 200 /\ Through(p.deliver) /\ p.listed = p.arc)
                  /\ ArcOf(H, p.arc).readable /\ ArcOf(H, p.arc).files # <<>>
SumsGood(p)    == p.sstatus = 200 /\ Through(p.sdeliver)
LibGood(p)     == p.lstatus = 200 /\ Through(p.ldeliver) /\ p.llisted = p.lib
Good(H, p, win, libonly) == /\ libonly \/ TarGood(H, p)
                            /\ (win => LibGood(p))
                            /\ (win \/ ~p.local) => SumsGood(p)
\* archives whose content an install of v may have vouched for, up to step k
Vouched(H, v, k) == { H.steps[j].plan.arc : j \in { j \in 1..k : H.steps[j].op = "install" /\ H.steps[j].v = v
                                                    /\ (H.steps[j].plan.local \/ H.steps[j].plan.listed = H.steps[j].plan.arc) } }
VouchedLibs(H, v, k) == { H.steps[j].plan.lib : j \in { j \in 1..k : H.steps[j].op = "install" /\ H.steps[j].v = v
                                                        /\ H.steps[j].plan.llisted = H.steps[j].plan.lib } }
LibHash(id) == "lib" \o ToString(id)

Absent(n) == [n |-> n, dir |-> FALSE, marker |-> 0, files |-> <<>>]
Ent(l, n) == IF \E x \in 1..Len(l) : l[x].n = n THEN l[CHOOSE x \in 1..Len(l) : l[x].n = n] ELSE Absent(n)
Names(l)  == { l[x].n : x \in 1..Len(l) }
\* nothing but the version n differs
OthersSame(a, b, n) == \A m \in (Names(a) \cup Names(b)) \ {n} : Ent(a, m).dir = Ent(b, m).dir /\ Ent(a, m).marker = Ent(b, m).marker
                                                                  /\ RangeOf(Ent(a, m).files) = RangeOf(Ent(b, m).files)
Same(e, f) == e.dir = f.dir /\ e.marker = f.marker /\ RangeOf(e.files) = RangeOf(f.files)
=============================================================================
