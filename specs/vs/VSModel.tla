------------------------------- MODULE VSModel --------------------------------
(* Every machine with up to Max installations and every request: the choice   *)
(* is supported, complete, as requested, and newest.                          *)
EXTENDS VisualStudio
CONSTANTS Max, Vers
PathsM == {"C:\\A", "C:\\B"}
Pkgs == { <<X64, MSB, SDK \o "10SDK.19041">>, <<X64, SDK \o "81SDK">>, <<MSB, SDK \o "10SDK.18362">>, <<ARM, MSB, SDK \o "11SDK.22000.Desktop">>, <<X64, MSB, SDK \o "10SDK.19041.UWP">> }
Installs == [path : PathsM, version : Vers, packages : Pkgs]
VARIABLE W
Worlds == UNION { [1..n -> Installs] : n \in 0..Max }
Init == /\ W \in [script : [ok : BOOLEAN, list : Worlds], module : {[ok |-> FALSE, list |-> <<>>]}, reg : {<<>>},
                  files : {<<>>, <<"C:\\A\\MSBuild\\Current\\Bin\\MSBuild.exe">>, <<"C:\\A\\MSBuild\\Current\\Bin\\MSBuild.exe", "C:\\B\\MSBuild\\Current\\Bin\\MSBuild.exe">>}, node : {"20", "22"},
                  arch : {"x64", "arm64"}, msvs : {"", "2019", "c:\\b\\"}, vcDir : {"", "C:\\B\\VC\\"}, vcVer : {""}, sdkEnv : {""}]
Next == UNCHANGED W
Ok(n) == /\ Year(n.version) \in {2017, 2019, 2022} /\ (Year(n.version) = 2017 => Below(W.node, 22))
         /\ Complete(W, n) /\ Wanted(W, Year(n.version), WPath(n.path))
Newest == LET r == Choose(W) l == Listed(W.script) ok == { x \in 1..Len(l) : Ok(l[x]) } IN
          IF r.found THEN \E x \in ok : Info(W, l[x]) = r /\ \A y \in ok : Year(l[y].version) <= r.year ELSE ok = {}
Whole == LET r == Choose(W) IN r.found => r.msBuild # "" /\ r.toolset # "" /\ r.sdk # "" /\ StartsWith(r.msBuild, r.path)
\* control: fails, some choice is not of the newest installation
First_ == LET r == Choose(W) l == Listed(W.script) IN \A x \in 1..Len(l) : r.found => Year(l[x].version) <= r.year
=============================================================================
