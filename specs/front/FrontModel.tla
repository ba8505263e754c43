----------------------------- MODULE FrontModel -----------------------------
(* Every command line of up to N words from a small vocabulary, in every        *)
(* environment of a small set: what the user types wins over the environment,   *)
(* and the command line kept for regeneration means the same run whatever the   *)
(* environment has become.                                                      *)
EXTENDS FrontLang
CONSTANT N
VARIABLES argv, env

Words == { <<"-Dva=1">>, <<"-D", "va=x y">>, <<"-Dvb">>, <<"-Gga=2">>, <<"--generator-output=o">>, <<"--config-dir", "cfg">>, <<"--config-dir=nosuch">>,
           <<"-Ii.gypi">>, <<"--ignore-environment">>, <<"-Rt0">>, <<"--check">>, <<"p.gyp">>, <<"--depth", ".">>, <<"--toplevel-dir=.">>, <<"-f", "make">> }
Envs == { <<>>, <<[k |-> "GYP_DEFINES", v |-> "va=3 'vb=a b'"]>>, <<[k |-> "GYP_GENERATOR_OUTPUT", v |-> "e"]>>,
          <<[k |-> "GYP_CONFIG_DIR", v |-> "cfg"], [k |-> "GYP_GENERATOR_FLAGS", v |-> "ga=5 gb"]>>,
          <<[k |-> "GYP_GENERATORS", v |-> "x,y"], [k |-> "GYP_DEFINES", v |-> "vc"]>> }
World(e) == [env |-> e, home |-> "/T/h", dirs |-> <<"cfg", "/T/h/.gyp">>, hasinc |-> <<"cfg", "/T/h/.gyp">>, gyps |-> <<"p.gyp", "q.gyp">>, cwd |-> "/T/top"]

Init == argv = <<>> /\ env \in Envs
Next == \E w \in Words : Len(argv) + Len(w) <= N /\ argv' = argv \o w /\ UNCHANGED env

W == World(env)
E == Effective(W, argv)
O == Parse(argv, Opts0)
Rg == Regen(W, argv)
Of(s, k) == { x \in s : x.k = k }
SameWhateverLater == E.ok => \A later \in Envs : SameRun(W, E, Effective(World(later), Rg)) = <<>>
RegenSettles      == E.ok => Effective(W, Regen(World(<<>>), Rg)) = Effective(W, Rg)
TypedWins         == \A j \in 1..Len(O.defines) : LET nv == NameValue(O.defines[j]) IN
                        (\A x \in (j + 1)..Len(O.defines) : NameValue(O.defines[x]).k # nv.k) => Of(E.defines, nv.k) = {nv}
EnvFillsIn        == \A x \in Effective(W, <<"--depth=.">>).defines : O.noenv \/ (\E j \in 1..Len(O.defines) : NameValue(O.defines[j]).k = x.k) \/ x \in E.defines
Isolated          == O.noenv => E = Effective(World(<<>>), argv)
OneValueEach      == \A x \in E.defines, y \in E.defines : x.k = y.k => x = y
OutputPrecedence  == E.gout = (IF O.gout # "" THEN O.gout ELSE IF O.noenv THEN "" ELSE EnvOf(W, "GYP_GENERATOR_OUTPUT"))
=============================================================================
