----------------------------- MODULE VisualStudio -----------------------------
(* Choosing a Visual Studio. A world W holds what the machine reports:        *)
(*   script, module: [ok, list] installations [path, version, packages] as    *)
(*     listed by the helper program and by the VSSetup module (or no answer)  *)
(*   reg: registry values [key, value, text] for the old releases             *)
(*   files: the build tools that exist                                        *)
(* and the request: node (major version, text), arch, msvs (option), vcDir,   *)
(* vcVer and sdkEnv (the developer prompt's variables, "" when unset), cwd.   *)
EXTENDS Release

UP == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LO == "abcdefghijklmnopqrstuvwxyz"
LowMap == [c \in { Ch(UP, k) : k \in 1..26 } |-> Ch(LO, CHOOSE k \in 1..26 : Ch(UP, k) = c)]
LowCh(c) == IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c
RECURSIVE Low(_)
Low(s) == IF s = "" THEN "" ELSE LowCh(Ch(s, 1)) \o Low(Tl(s, 1))
RECURSIVE Slashed(_)
Slashed(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "\\" THEN "/" ELSE Ch(s, 1)) \o Slashed(Tl(s, 1))
\* an absolute Windows path in its shortest form
WPath(p) == LET c == PathC(Slashed(p)) IN Join(c, "\\") \o (IF Len(c) = 1 THEN "\\" ELSE "")
\* a file below a directory
Under(p, f) == LET d == WPath(p) IN IF Ch(d, Len(d)) = "\\" THEN d \o f ELSE d \o "\\" \o f
WUp(p)   == LET c == PathC(Slashed(p)) IN WPath(Join(SubSeq(c, 1, Len(c) - 1), "/"))
IsDrive(p) == Len(p) > 2 /\ Ch(p, 2) = ":" /\ Ch(p, 3) \in {"\\", "/"}
SamePlace(a, b) == a = b \/ (Len(a) = Len(b) /\ Low(a) = Low(b))

\* ---------------------------------------------------------- one installation
RECURSIVE Lead(_)
Lead(s) == IF s # "" /\ Ch(s, 1) \in Digits THEN Ch(s, 1) \o Lead(Tl(s, 1)) ELSE ""
\* a number without leading zeros
RECURSIVE Plain(_)
Plain(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Plain(Tl(s, 1)) ELSE s
\* [major, minor] or ["", ""]
MajMin(v) == LET a == Lead(v) r == Tl(v, Len(a)) b == IF StartsWith(r, ".") THEN Lead(Tl(r, 1)) ELSE "" IN
             IF a # "" /\ b # "" THEN [major |-> Plain(a), minor |-> Plain(b)] ELSE [major |-> "", minor |-> ""]
Year(v) == LET m == MajMin(v).major IN CASE m = "15" -> 2017 [] m = "16" -> 2019 [] m = "17" -> 2022 [] OTHER -> 0
ToolsetOf(y) == CASE y = 2017 -> "v141" [] y = 2019 -> "v142" [] y = 2022 -> "v143" [] OTHER -> ""
X64 == "Microsoft.VisualStudio.Component.VC.Tools.x86.x64"
ARM == "Microsoft.VisualStudio.Component.VC.Tools.ARM64"
EXPRESS == "Microsoft.VisualStudio.WDExpress"
MSB == "Microsoft.VisualStudio.VC.MSBuild.Base"
SDK == "Microsoft.VisualStudio.Component.Windows"
HasTools(W, n) == InSeq(X64, n.packages) \/ InSeq(EXPRESS, n.packages) \/ (W.arch = "arm64" /\ InSeq(ARM, n.packages))
\* number of a desktop SDK package, "" for any other
SdkNo(p) == IF ~StartsWith(p, SDK \o "10SDK.") /\ ~StartsWith(p, SDK \o "11SDK.") THEN ""
            ELSE LET c == Split(p, ".") IN IF Len(c) > 5 /\ c[6] # "Desktop" THEN "" ELSE Plain(Lead(c[5]))
Larger(a, b) == Len(a) > Len(b) \/ (Len(a) = Len(b) /\ \E k \in 1..Len(a) : SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1) /\ FindFrom("0123456789", Ch(a, k), 1) > FindFrom("0123456789", Ch(b, k), 1))
SdkOf(n) == LET ns == { SdkNo(p) : p \in RangeOf(n.packages) } \ {"", "0"} IN
            IF ns # {} THEN "10.0." \o (CHOOSE a \in ns : \A b \in ns : a = b \/ Larger(a, b)) \o ".0"
            ELSE IF InSeq(SDK \o "81SDK", n.packages) THEN "8.1" ELSE ""
Current(n, sub) == Under(n.path, "MSBuild\\Current\\Bin\\" \o sub \o "MSBuild.exe")
Exists(W, p) == \E f \in RangeOf(W.files) : SamePlace(f, p)
BuildTool(W, n) ==
    LET y == Year(n.version)
        arm == W.arch = "arm64" /\ Exists(W, Current(n, "arm64\\"))
    IN  CASE InSeq(MSB, n.packages) /\ y = 2017 -> Under(n.path, "MSBuild\\15.0\\Bin\\MSBuild.exe")
          [] InSeq(MSB, n.packages) /\ y = 2019 -> IF arm THEN Current(n, "arm64\\") ELSE Current(n, "")
          [] OTHER -> IF arm THEN Current(n, "arm64\\") ELSE IF Exists(W, Current(n, "")) THEN Current(n, "") ELSE ""
Complete(W, n) == BuildTool(W, n) # "" /\ HasTools(W, n) /\ SdkOf(n) # ""

\* ------------------------------------------------------------------- request
YearAsked(W) == IF Len(W.msvs) = 4 /\ AllIn(W.msvs, Digits) THEN W.msvs ELSE ""
PathAsked(W) == IF W.msvs = "" \/ YearAsked(W) # "" THEN "" ELSE IF IsDrive(W.msvs) THEN WPath(W.msvs) ELSE "elsewhere"
Prompt(W)    == IF W.vcDir = "" THEN "" ELSE WUp(W.vcDir)
Wanted(W, year, path) == /\ (YearAsked(W) # "" => YearAsked(W) = ToString(year))
                         /\ (PathAsked(W) # "" => SamePlace(PathAsked(W), path))
                         /\ (Prompt(W) # "" => SamePlace(Prompt(W), path))

None == [found |-> FALSE, version |-> "", major |-> "", minor |-> "", year |-> 0, path |-> "", msBuild |-> "", toolset |-> "", sdk |-> ""]
Info(W, n) == [found |-> TRUE, version |-> n.version, major |-> MajMin(n.version).major, minor |-> MajMin(n.version).minor, year |-> Year(n.version),
               path |-> WPath(n.path), msBuild |-> BuildTool(W, n), toolset |-> ToolsetOf(Year(n.version)), sdk |-> SdkOf(n)]
\* the first usable one of the newest year
Best(W, list, years) ==
    LET ok == { x \in 1..Len(list) : Year(list[x].version) \in years /\ Complete(W, list[x]) /\ Wanted(W, Year(list[x].version), WPath(list[x].path)) }
    IN  IF ok = {} THEN None
        ELSE Info(W, list[CHOOSE x \in ok : \A y \in ok : Year(list[y].version) < Year(list[x].version) \/ (Year(list[y].version) = Year(list[x].version) /\ x <= y)])

\* the developer prompt describes its own installation
PromptInstall(W) == IF W.vcDir = "" THEN <<>>
    ELSE LET s == Split(W.sdkEnv, ".") IN
         << [path |-> Prompt(W), version |-> W.vcVer,
             packages |-> <<X64, ARM, MSB>> \o (IF Len(s) >= 4 /\ (\A k \in 1..3 : s[k] # "" /\ AllIn(s[k], Digits)) THEN <<SDK \o "10SDK." \o s[3] \o ".Desktop">> ELSE <<>>)] >>
Listed(a) == IF a.ok THEN a.list ELSE <<>>

\* --------------------------------------------------------------- old releases
RegHas(W, k, v) == \E x \in RangeOf(W.reg) : x.key = k /\ x.value = v
RegVal(W, k, v) == (CHOOSE x \in RangeOf(W.reg) : x.key = k /\ x.value = v).text
VC7(W, v) == LET a == "HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7" b == "HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7" IN
             IF RegHas(W, a, v) THEN RegVal(W, a, v) ELSE IF RegHas(W, b, v) THEN RegVal(W, b, v) ELSE ""
Old(W, year, v, toolset) ==
    LET p == VC7(W, v) k == "HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\" \o v IN
    IF p = "" \/ ~RegHas(W, k, "MSBuildToolsPath") \/ ~Wanted(W, year, WUp(p)) THEN None
    ELSE [found |-> TRUE, version |-> v, major |-> Plain(Lead(v)), minor |-> "0", year |-> year, path |-> WUp(p),
          msBuild |-> Under(RegVal(W, k, "MSBuildToolsPath"), "MSBuild.exe"), toolset |-> toolset, sdk |-> ""]

OrElse(a, b) == IF a.found THEN a ELSE b
Choose(W) ==
    LET New == {2019, 2022}
        from(src, years) == Best(W, src, years)
        if17(x) == IF Below(W.node, 22) THEN x ELSE None
    IN  OrElse(from(PromptInstall(W), New), OrElse(from(Listed(W.module), New), OrElse(from(Listed(W.script), New),
        OrElse(if17(from(PromptInstall(W), {2017})), OrElse(if17(from(Listed(W.module), {2017})), OrElse(if17(from(Listed(W.script), {2017})),
        OrElse(IF Below(W.node, 19) THEN Old(W, 2015, "14.0", "v140") ELSE None, IF Below(W.node, 9) THEN Old(W, 2013, "12.0", "v120") ELSE None)))))))
=============================================================================
