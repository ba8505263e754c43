From a6c073f7dd86b8256a5d2f4b4f29a6b140f6eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 01/54] fix: do not treat dependency filter patterns as target
 references

---
 gyp/pylib/gyp/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..b992d5c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1476,8 +1476,9 @@ def QualifyDependencies(targets):
   similar dict.
   """
 
+    # The "/" lists hold [action, regex] pairs, not references to targets.
     all_dependency_sections = [
-        dep + op for dep in dependency_sections for op in ("", "!", "/")
+        dep + op for dep in dependency_sections for op in ("", "!")
     ]
 
     for target, target_dict in targets.items():
-- 
2.43.0


From 5808464c379f214bbe610c75e950c951aef473b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 02/54] fix: keep prepended items in front when one of them is
 repeated

---
 gyp/pylib/gyp/input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index b992d5c..ffc7713 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2271,6 +2271,9 @@ def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
             # existing instance and proceed with the prepend.  This ensures that the
             # item appears at the earliest possible position in the list.
             while singleton and to_item in to:
+                if to.index(to_item) < prepend_index:
+                    # It was prepended just before, so the insertion point moves.
+                    prepend_index = prepend_index - 1
                 to.remove(to_item)
 
             # Don't just insert everything at index 0.  That would prepend the new
-- 
2.43.0


From 54ac63a211e678620a95f81d30ec4b14d79f9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 03/54] fix: apply list filter patterns to integer items

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index ffc7713..69c7e80 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2630,7 +2630,7 @@ def ProcessListFiltersInDict(name, the_dict):
                         # Even if the regex matches, nothing will change so continue
                         # (regex searches are expensive).
                         continue
-                    if pattern_re.search(list_item):
+                    if pattern_re.search(str(list_item)):
                         # Regular expression match.
                         list_actions[index] = action_value
 
-- 
2.43.0


From 96e40d8ddca6b4dea82133b058d52061a9e5f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 04/54] fix: treat a command expansion that a signal ended as
 failed

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 69c7e80..e2881a9 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -973,7 +973,7 @@ def ExpandVariables(input, phase, variables, build_file):
                             % (e, contents, build_file)
                         )
 
-                    if result.returncode > 0:
+                    if result.returncode != 0:
                         raise GypError(
                             "Call to '%s' returned exit status %d while in %s."
                             % (contents, result.returncode, build_file)
-- 
2.43.0


From 87f42cdd492b57aeb94e67bebd7f2a210a962ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 05/54] fix: expand a referenced list variable without changing
 the variable

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index e2881a9..d975cd5 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1026,7 +1026,9 @@ def ExpandVariables(input, phase, variables, build_file):
                     )
             # Run through the list and handle variable expansions in it.  Since
             # the list is guaranteed not to contain dicts, this won't do anything
-            # with conditions sections.
+            # with conditions sections.  Work on a copy: the variable's own list
+            # must not keep what is visible only where it is referenced from.
+            replacement = gyp.simple_copy.deepcopy(replacement)
             ProcessVariablesAndConditionsInList(
                 replacement, phase, variables, build_file
             )
-- 
2.43.0


From e70d4673003edc77daf621651e280823c44b0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 06/54] fix: accept list filter patterns that look like
 integers

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index d975cd5..041b631 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2608,7 +2608,7 @@ def ProcessListFiltersInDict(name, the_dict):
         if regex_key in the_dict:
             for regex_item in the_dict[regex_key]:
                 [action, pattern] = regex_item
-                pattern_re = re.compile(pattern)
+                pattern_re = re.compile(str(pattern))
 
                 if action == "exclude":
                     # This item matches an exclude regex, set its value to 0 (exclude).
-- 
2.43.0


From a78dd5f58f946b6d3f4a8bf88dbd4ff6a711495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 07/54] fix: let DEPTH in the late phases be that of the
 target's own build file

---
 gyp/pylib/gyp/input.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 041b631..971137c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -359,16 +359,7 @@ def ProcessToolsetsInDict(data):
 # TODO(mark): I don't love this name.  It just means that it's going to load
 # a build file that contains targets and is expected to provide a targets dict
 # that contains the targets...
-def LoadTargetBuildFile(
-    build_file_path,
-    data,
-    aux_data,
-    variables,
-    includes,
-    depth,
-    check,
-    load_dependencies,
-):
+def SetDepthVariable(build_file_path, variables, depth):
     # If depth is set, predefine the DEPTH variable to be a relative path from
     # this build file's directory to the directory identified by depth.
     if depth:
@@ -381,6 +372,19 @@ def LoadTargetBuildFile(
         else:
             variables["DEPTH"] = d.replace("\\", "/")
 
+
+def LoadTargetBuildFile(
+    build_file_path,
+    data,
+    aux_data,
+    variables,
+    includes,
+    depth,
+    check,
+    load_dependencies,
+):
+    SetDepthVariable(build_file_path, variables, depth)
+
     # The 'target_build_files' key is only set when loading target build files in
     # the non-parallel code path, where LoadTargetBuildFile is called
     # recursively.  In the parallel code path, we don't need to check whether the
@@ -3076,6 +3080,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(build_file, variables, depth)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATE, variables, build_file
         )
@@ -3094,6 +3099,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(build_file, variables, depth)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATELATE, variables, build_file
         )
-- 
2.43.0


From 650a6c41487db0c33c153e79167828f1d32efbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 08/54] fix: report a build file whose python module exits as
 failed in parallel loads

---
 gyp/pylib/gyp/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 971137c..6012bf4 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -550,7 +550,8 @@ def CallLoadTargetBuildFile(
     except GypError as e:
         sys.stderr.write("gyp: %s\n" % e)
         return None
-    except Exception as e:
+    except (Exception, SystemExit) as e:
+        # A worker that exits would leave the main process waiting for its result.
         print("Exception:", e, file=sys.stderr)
         print(traceback.format_exc(), file=sys.stderr)
         return None
-- 
2.43.0


From 2b19ed6c55965f59faa77bd0e2e5a44a608a9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 09/54] fix: do not rebuild objects whose command line contains
 a number sign

---
 gyp/pylib/gyp/generator/make.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..ea57362 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -495,8 +495,10 @@ escape_quotes = $(subst ','\'',$(1))
 # This comment is here just to include a ' to unconfuse syntax highlighting.
 # Define an escape_vars function to escape '$' variable syntax.
 # This allows us to read/write command lines with shell variables (e.g.
-# $LD_LIBRARY_PATH), without triggering make substitution.
-escape_vars = $(subst $$,$$$$,$(1))
+# $LD_LIBRARY_PATH), without triggering make substitution. A number sign would
+# start a comment when the command line is read back, so refer to it by name.
+number_sign := \#
+escape_vars = $(subst $(number_sign),$$(number_sign),$(subst $$,$$$$,$(1)))
 # Helper that expands to a shell command to echo a string exactly as it is in
 # make. This uses printf instead of echo because printf's behaviour with respect
 # to escape sequences is more portable than echo's across different shells
-- 
2.43.0


From 70bc459ec24a0a2bb83a94a2dcded75b679770f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 10/54] fix: keep backslashes in front of a number sign in
 makefile defines

---
 gyp/pylib/gyp/generator/make.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index ea57362..976e519 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -719,13 +719,17 @@ def EscapeMakeVariableExpansion(s):
     return s.replace("$", "$$")
 
 
+def EscapeMakeComment(s):
+    """'#' characters must be escaped even embedded in a string, else Make will
+    treat it as the start of a comment. Backslashes in front of one are special."""
+    return re.sub(r"(\\*)#", r"\1\1\\#", s)
+
+
 def EscapeCppDefine(s):
     """Escapes a CPP define so that it will reach the compiler unaltered."""
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
-    # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment.
-    return s.replace("#", r"\#")
+    return EscapeMakeComment(s)
 
 
 def QuoteIfNecessary(string):
-- 
2.43.0


From 30bab7eab3dd0b51ddacb39f5e43f81219cfb33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 11/54] fix: quote backslashes in ninja shell arguments

---
 gyp/pylib/gyp/generator/ninja.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..c73715e 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -76,9 +76,11 @@ def QuoteShellArgument(arg, flavor):
     by the shell."""
     # Rather than attempting to enumerate the bad shell characters, just
     # allow common OK ones and quote anything else.
-    if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+    if re.match(r"^[a-zA-Z0-9_=./-]+$", arg):
         return arg  # No quoting necessary.
     if flavor == "win":
+        if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+            return arg  # A backslash is nothing special here.
         return gyp.msvs_emulation.QuoteForRspFile(arg)
     return "'" + arg.replace("'", "'" + '"\'"' + "'") + "'"
 
-- 
2.43.0


From 0305107fecf2870ad852a0dfc4b7132e130194ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 12/54] fix: keep number signs in the arguments of make actions
 and rules

---
 gyp/pylib/gyp/generator/make.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 976e519..5b1ed44 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1058,7 +1058,9 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     gyp.xcode_emulation.ExpandEnvVars(command, env)
                     for command in action_commands
                 ]
-            command = gyp.common.EncodePOSIXShellList(action_commands)
+            command = EscapeMakeComment(
+                gyp.common.EncodePOSIXShellList(action_commands)
+            )
             if "message" in action:
                 self.WriteLn(
                     "quiet_cmd_{} = ACTION {} $@".format(name, action["message"])
@@ -1242,7 +1244,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         gyp.xcode_emulation.ExpandEnvVars(command, env)
                         for command in action
                     ]
-                action = gyp.common.EncodePOSIXShellList(action)
+                action = EscapeMakeComment(gyp.common.EncodePOSIXShellList(action))
                 action = action.replace("$(TARGET)", self.target)
                 cd_action = cd_action.replace("$(TARGET)", self.target)
                 mkdirs = mkdirs.replace("$(TARGET)", self.target)
-- 
2.43.0


From 40e523e9eba9523980d3e8a807936b61a8aa0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 13/54] fix: make every ninja rule of a target wait for the
 target's dependencies

---
 gyp/pylib/gyp/generator/ninja.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index c73715e..ece396c 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -747,6 +747,7 @@ class NinjaWriter:
             # write m * n inputs. Collapsing reduces this to m + n.
             sources = rule.get("rule_sources", [])
             num_inputs = len(inputs)
+            rule_prebuild = prebuild
             if prebuild:
                 num_inputs += 1
             if num_inputs > 2 and len(sources) > 2:
@@ -755,7 +756,7 @@ class NinjaWriter:
                         rule["rule_name"], inputs, order_only=prebuild
                     )
                 ]
-                prebuild = []
+                rule_prebuild = []
 
             # For each source file, write an edge that generates all the outputs.
             for source in sources:
@@ -823,7 +824,7 @@ class NinjaWriter:
                     rule_name,
                     self.GypPathToNinja(source),
                     implicit=inputs,
-                    order_only=prebuild,
+                    order_only=rule_prebuild,
                     variables=extra_bindings,
                 )
 
-- 
2.43.0


From 33218c7d1c3e425635073a51f5574bc13158a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 14/54] fix: keep repeated spaces where a long ninja line is
 wrapped

---
 gyp/pylib/gyp/ninja_syntax.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/ninja_syntax.py b/gyp/pylib/gyp/ninja_syntax.py
index 0e3e86c..34e7aef 100644
--- a/gyp/pylib/gyp/ninja_syntax.py
+++ b/gyp/pylib/gyp/ninja_syntax.py
@@ -121,6 +121,15 @@ class Writer:
             dollar_index -= 1
         return dollar_count
 
+    def _is_wrappable_space(self, text, i):
+        """Returns whether a line can be wrapped at the space at text[i]: the space
+        is not escaped, and no other space follows it, as leading spaces of the
+        continuation line are dropped."""
+        return (
+            self._count_dollars_before_index(text, i) % 2 == 0
+            and text[i + 1 : i + 2] != " "
+        )
+
     def _line(self, text, indent=0):
         """Write 'text' word-wrapped at self.width characters."""
         leading_space = "  " * indent
@@ -133,7 +142,7 @@ class Writer:
             space = available_space
             while True:
                 space = text.rfind(" ", 0, space)
-                if space < 0 or self._count_dollars_before_index(text, space) % 2 == 0:
+                if space < 0 or self._is_wrappable_space(text, space):
                     break
 
             if space < 0:
@@ -141,10 +150,7 @@ class Writer:
                 space = available_space - 1
                 while True:
                     space = text.find(" ", space + 1)
-                    if (
-                        space < 0
-                        or self._count_dollars_before_index(text, space) % 2 == 0
-                    ):
+                    if space < 0 or self._is_wrappable_space(text, space):
                         break
             if space < 0:
                 # Give up on breaking.
-- 
2.43.0


From 7eea80b7a458eb1cd6bd70a1781a360dd22d3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 15/54] fix: rerun a make rule whose command changed

---
 gyp/pylib/gyp/generator/make.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 5b1ed44..3094b02 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1212,8 +1212,15 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # accidentally writing duplicate dummy rules for those outputs.
                 self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
                 self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
+                # FORCE_DO_CMD lets do_cmd notice a changed command. It would run a
+                # rule with several outputs on every build: their intermediate file
+                # never exists.
                 self.WriteMakeRule(
-                    outputs, inputs, actions, command="%s_%d" % (name, count)
+                    outputs,
+                    inputs,
+                    actions,
+                    command="%s_%d" % (name, count),
+                    force=len(outputs) == 1,
                 )
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
-- 
2.43.0


From 862c3c3ced717fa1e3e27dac064003c00b0573a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 16/54] fix: write makefiles that do not depend on the hash
 seed

---
 gyp/pylib/gyp/generator/make.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 3094b02..7251f1e 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -944,7 +944,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             sources = [x for x in all_sources if Compilable(x)]
             if sources:
                 self.WriteLn(SHARED_HEADER_SUFFIX_RULES_COMMENT1)
-                extensions = {os.path.splitext(s)[1] for s in sources}
+                extensions = sorted({os.path.splitext(s)[1] for s in sources})
                 for ext in extensions:
                     if ext in self.suffix_rules_srcdir:
                         self.WriteLn(self.suffix_rules_srcdir[ext])
@@ -1068,7 +1068,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             else:
                 self.WriteLn(f"quiet_cmd_{name} = ACTION {name} $@")
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd %s; " % Sourceify(self.path or ".")
 
@@ -1240,7 +1240,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 ]
                 mkdirs = ""
                 if len(dirs) > 0:
-                    mkdirs = "mkdir -p %s; " % " ".join(dirs)
+                    mkdirs = "mkdir -p %s; " % " ".join(sorted(dirs))
                 cd_action = "cd %s; " % Sourceify(self.path or ".")
 
                 # action, cd_action, and mkdirs get written to a toplevel variable
@@ -2398,7 +2398,7 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-                " ".join(SourceifyAndQuoteSpaces(bf) for bf in build_files)
+                " ".join(SourceifyAndQuoteSpaces(bf) for bf in sorted(build_files))
             ),
             "cmd": replace_sep(gyp.common.EncodePOSIXShellList(
                 [gyp_binary, "-fmake"] + gyp.RegenerateFlags(options) + build_files_args
@@ -2638,7 +2638,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             "LOCAL_PATH := $(call my-dir)\n"
             "\n"
         )
-    for toolset in toolsets:
+    for toolset in sorted(toolsets):
         root_makefile.write("TOOLSET := %s\n" % toolset)
         WriteRootHeaderSuffixRules(root_makefile)
 
-- 
2.43.0


From 7861e5a75077854656435b2c585daec11c5566fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 17/54] fix: list targets in an order that does not depend on
 the hash seed

---
 gyp/pylib/gyp/common.py | 2 +-
 gyp/pylib/gyp/input.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 762ae02..00f802e 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -310,7 +310,7 @@ def DeepDependencyTargets(target_dicts, roots):
         spec = target_dicts[r]
         pending.update(set(spec.get("dependencies", [])))
         pending.update(set(spec.get("dependencies_original", [])))
-    return list(dependencies - set(roots))
+    return sorted(dependencies - set(roots))
 
 
 def BuildFileTargets(target_list, build_file):
diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 6012bf4..255feec 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1460,7 +1460,7 @@ def BuildTargetsDict(data):
   """
 
     targets = {}
-    for build_file in data["target_build_files"]:
+    for build_file in sorted(data["target_build_files"]):
         for target in data[build_file].get("targets", []):
             target_name = gyp.common.QualifiedTarget(
                 build_file, target["target_name"], target["toolset"]
-- 
2.43.0


From 1220b0aba6fb8c6f31603e89607fa431c958eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 18/54] fix: write CMake files that do not depend on the hash
 seed

---
 gyp/pylib/gyp/generator/cmake.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index 8720a3d..d9adfb2 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -287,7 +287,7 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
         output.write("\n")
 
         if len(dirs) > 0:
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
@@ -394,7 +394,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
                 output.write(out)
                 output.write("\n")
 
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
-- 
2.43.0


From e98e3e34f8c879752560cce4ce29fc19743f11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 19/54] fix: leave unchanged XML project files alone and encode
 them always

---
 gyp/pylib/gyp/easy_xml.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..76a018f 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,17 +120,11 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    xml_string = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
-- 
2.43.0


From d60ef6e1ab58f8e80fb4149581d8a2564c2fe4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 20/54] fix: order Visual Studio configurations independently
 of the hash seed

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..329b7d1 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2116,7 +2116,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             configs.add(config_name)
             if config_name == "Release|arm64":
                 configs.add("Release|x64")
-    configs = list(configs)
+    configs = sorted(configs)
 
     # Figure out all the projects that will be generated and their guids
     project_objects = _CreateProjectObjects(
-- 
2.43.0


From d80d05358b0645ac31f070d9260abccbb9f557cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 21/54] fix: escape defines with backslashes before quotes for
 MSBuild

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 329b7d1..93fe479 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -860,7 +860,7 @@ def _EscapeCommandLineArgumentForMSBuild(s):
     """Escapes a Windows command-line argument for use by MSBuild."""
 
     def _Replace(match):
-        return (len(match.group(1)) / 2 * 4) * "\\" + '\\"'
+        return (len(match.group(1)) // 2 * 4) * "\\" + '\\"'
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex2.sub(_Replace, s)
-- 
2.43.0


From a121a38e09ca848777e182eac6ee5a5ee9696197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 22/54] fix: analyzer: a source above the top directory is not
 a file in it

base_path.split('/') of an empty path is [''], one component, so '../x'
in a build file at the top was taken for 'x' inside it.
---
 gyp/pylib/gyp/generator/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64573ad..50c96c6 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -191,7 +191,7 @@ def _ExtractSources(target, target_dict, toplevel_dir):
     # source paths are always posix. Convert |target| to a posix path relative to
     # |toplevel_dir_|. This is done to make it easy to build source paths.
     base_path = posixpath.dirname(_ToLocalPath(toplevel_dir, _ToGypPath(target)))
-    base_path_components = base_path.split("/")
+    base_path_components = base_path.split("/") if base_path else []
 
     # Add a trailing '/' so that _AddSources() can easily build paths.
     if len(base_path):
-- 
2.43.0


From c96ae1a3daf8572301ec19350e5392cf76c8e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 23/54] fix: remove only deletes directories right below the
 dev dir

'node-gyp remove ..' (or '.', or any path) deleted whatever the name
resolved to.
---
 lib/remove.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/remove.js b/lib/remove.js
index 7efdb01..e6c0206 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -24,6 +24,10 @@ async function remove (gyp, argv) {
   }
 
   const versionPath = path.resolve(gyp.devDir, version)
+  // a version is a directory right below the dev dir, nothing else is ours to remove
+  if (path.dirname(versionPath) !== path.resolve(gyp.devDir) || path.basename(versionPath) !== version) {
+    throw new Error('Invalid version number: ' + version)
+  }
   log.verbose('remove', 'removing development files for version:', version)
 
   // first check if its even installed
-- 
2.43.0


From a61a400b2897429201bca5c2ee49917992460c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 24/54] fix: install the requested version in the EACCES
 fallback

The marker argument was put in front of the version, which then was not
found where processRelease looks for it.
---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..adcb129 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -389,7 +389,7 @@ async function install (gyp, argv) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
       gyp.todo.push({ name: 'remove', args: argv })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From f1d8449aa48354e7737d1f47b793b27e459f4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 25/54] fix: look for the import library under the name it is
 installed with

io.js releases install iojs.lib, so --ensure downloaded it every time.
---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index adcb129..8fc51ef 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -93,7 +93,7 @@ async function install (gyp, argv) {
     log.verbose('install', 'version is good')
     if (win) {
       log.verbose('on Windows; need to check node.lib')
-      const nodeLibPath = path.resolve(devDir, arch, 'node.lib')
+      const nodeLibPath = path.resolve(devDir, arch, release.name + '.lib')
       try {
         await fs.stat(nodeLibPath)
       } catch (err) {
-- 
2.43.0


From e689490accec0fd99233321f2ab890ddc5cdffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 26/54] fix: mark a version as installed only when it is
 complete and verified

installVersion was written while the checksums were still being fetched,
and the one of an earlier install stayed in place during a reinstall, so
a killed install left a directory that --ensure took for installed.
---
 lib/install.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index 8fc51ef..4c9dc6e 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -171,6 +171,10 @@ async function install (gyp, argv) {
       throw err
     }
 
+    // whatever is installed there does not count until this install is complete
+    const installVersionPath = path.resolve(devDir, 'installVersion')
+    await fs.rm(installVersionPath, { force: true })
+
     // now download the node tarball
     const tarPath = gyp.opts.tarball
     let extractErrors = false
@@ -257,12 +261,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -280,6 +281,10 @@ async function install (gyp, argv) {
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
       }
+
+      // write the "installVersion" file, which makes the installation count:
+      // last, when everything is in place and verified
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
     } finally {
       if (tarExtractDir !== devDir) {
         try {
-- 
2.43.0


From 4b6f620808fb5c9ea1e71c5f75a05fed10314da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 27/54] fix: remove the installed marker before the files of a
 version

An interrupted remove could leave the marker with only part of the
headers, which --ensure took for installed.
---
 lib/remove.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/remove.js b/lib/remove.js
index e6c0206..9e3897b 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -31,8 +31,9 @@ async function remove (gyp, argv) {
   log.verbose('remove', 'removing development files for version:', version)
 
   // first check if its even installed
+  let stat
   try {
-    await fs.stat(versionPath)
+    stat = await fs.stat(versionPath)
   } catch (err) {
     if (err.code === 'ENOENT') {
       return 'version was already uninstalled: ' + version
@@ -40,6 +41,10 @@ async function remove (gyp, argv) {
     throw err
   }
 
+  // the marker goes first, half of a version must not count as installed
+  if (stat.isDirectory()) {
+    await fs.rm(path.join(versionPath, 'installVersion'), { force: true })
+  }
   await fs.rm(versionPath, { recursive: true, force: true })
 }
 
-- 
2.43.0


From 5906f2aa2a285bc61b748b3bebee5a23ebe23e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 28/54] fix: a full install on Windows starts without import
 libraries

The half-copied library of an interrupted install for one architecture
survived a later install for another one and then passed --ensure.
---
 lib/install.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/install.js b/lib/install.js
index 4c9dc6e..1cd9b97 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -174,6 +174,12 @@ async function install (gyp, argv) {
     // whatever is installed there does not count until this install is complete
     const installVersionPath = path.resolve(devDir, 'installVersion')
     await fs.rm(installVersionPath, { force: true })
+    if (win && shouldDownloadTarball) {
+      // nor do import libraries, which are only checked for by name
+      for (const dir of ['ia32', 'x64', 'arm64']) {
+        await fs.rm(path.resolve(devDir, dir, release.name + '.lib'), { force: true })
+      }
+    }
 
     // now download the node tarball
     const tarPath = gyp.opts.tarball
-- 
2.43.0


From c4c5f60eafed8e7096b0589035c2b5479e764652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 29/54] fix: command names are own names of the command table

---
 lib/node-gyp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 5e25bf9..5a95348 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -100,7 +100,7 @@ class Gyp extends EventEmitter {
     // create a copy of the argv array with aliases mapped
     argv = this.argv.map((arg) => {
     // is this an alias?
-      if (arg in this.aliases) {
+      if (Object.hasOwn(this.aliases, arg)) {
         arg = this.aliases[arg]
       }
       return arg
@@ -108,7 +108,7 @@ class Gyp extends EventEmitter {
 
     // process the mapped args into "command" objects ("name" and "args" props)
     argv.slice().forEach((arg) => {
-      if (arg in this.commands) {
+      if (Object.hasOwn(this.commands, arg)) {
         const args = argv.splice(0, argv.indexOf(arg))
         argv.shift()
         if (commands.length > 0) {
-- 
2.43.0


From 5d6a817ecba7788e0b0e207de6457eb646372cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 30/54] fix: take only the directory of a .lib file for its
 architecture

---
 lib/process-release.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/process-release.js b/lib/process-release.js
index c9a319d..3217fc2 100644
--- a/lib/process-release.js
+++ b/lib/process-release.js
@@ -9,8 +9,9 @@ const log = require('./log')
 
 // versions where -headers.tar.gz started shipping
 const headersTarballRange = '>= 3.0.0 || ~0.12.10 || ~0.10.42'
-const bitsre = /\/win-(x86|x64|arm64)\//
-const bitsreV3 = /\/win-(x86|ia32|x64)\// // io.js v3.x.x shipped with "ia32" but should
+// the directory of a .lib file; a mirror may have such a directory further up
+const bitsre = /\/win-(x86|x64|arm64)\/(?=[^/]+$)/
+const bitsreV3 = /\/win-(x86|ia32|x64)\/(?=[^/]+$)/ // io.js v3.x.x shipped with "ia32" but should
 // have been "x86"
 
 // Captures all the logic required to determine download URLs, local directory and
-- 
2.43.0


From ccd884d0380d8a5baa0ae70f1d68ab36cb686d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 31/54] fix: allow ARM64 assembly from Visual Studio 2017
 version 15.9 on

---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..bdaf3ec 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -88,7 +88,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     }
     if (variables.target_arch === 'arm64') {
       if (vsInfo.versionMajor > 15 ||
-          (vsInfo.versionMajor === 15 && vsInfo.versionMajor >= 9)) {
+          (vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)) {
         defaults.msvs_enable_marmasm = 1
       } else {
         log.warn('Compiling ARM64 assembly is only available in\n' +
-- 
2.43.0


From 76e2a2e25568d67d57e05b3cadd7697c2002d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 32/54] fix: pass every unknown option on as a variable,
 whatever its name

---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index bdaf3ec..0b35cf9 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -109,7 +109,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     if (opt === 'argv') {
       return
     }
-    if (opt in gyp.configDefs) {
+    if (Object.hasOwn(gyp.configDefs, opt)) {
       return
     }
     variables[opt.replace(/-/g, '_')] = gyp.opts[opt]
-- 
2.43.0


From 746cde0713cfeed04cda5950925a59db0068aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 33/54] fix: read quotes and number signs in the strings of
 config.gypi

---
 lib/create-config-gypi.js | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 0b35cf9..b29154a 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -5,13 +5,25 @@ const log = require('./log')
 const path = require('path')
 
 function parseConfigGypi (config) {
-  // translated from tools/js2c.py of Node.js
-  // 1. string comments
-  config = config.replace(/#.*/g, '')
-  // 2. join multiline strings
-  config = config.replace(/'$\s+'/mg, '')
-  // 3. normalize string literals from ' into "
-  config = config.replace(/'/g, '"')
+  // 1. drop comments, 2. join adjacent (multiline) string literals,
+  // 3. normalize string literals into JSON ones
+  const tokens = /#.*|(?:(?:"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')\s*)+/g
+  config = config.replace(tokens, (token) => {
+    if (token.startsWith('#')) {
+      return ''
+    }
+    let text = ''
+    for (const literal of token.match(/"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'/g)) {
+      text += literal.slice(1, -1)
+    }
+    text = text.replace(/\\x([0-9a-f]{2})|\\'|\\.|"/gi, (match, hex) => {
+      if (hex) {
+        return '\\u00' + hex
+      }
+      return match === '"' ? '\\"' : match === "\\'" ? "'" : match
+    })
+    return `"${text}"`
+  })
   return JSON.parse(config)
 }
 
-- 
2.43.0


From 7362e61d348f349ee8fb7e4d79356f554c197a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 34/54] fix: a Python candidate that fails to run is not used

---
 lib/find-python.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/find-python.js b/lib/find-python.js
index a71c00c..2125e27 100644
--- a/lib/find-python.js
+++ b/lib/find-python.js
@@ -266,6 +266,9 @@ class PythonFinder {
       this.log.silly('execFile result: err = %j', (err && err.stack) || err)
       this.log.silly('execFile result: stdout = %j', stdout)
       this.log.silly('execFile result: stderr = %j', stderr)
+      if (err) {
+        throw err
+      }
       return stdout.trim()
     } catch (err) {
       this.log.silly('execFile: threw:\n%s', err.stack)
-- 
2.43.0


From 967feab0a4c9387115fa4a83d18d7b01d8bf365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 35/54] fix: a build that removes its helper directory has not
 failed

---
 lib/build.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/build.js b/lib/build.js
index ae38d22..c51e7c8 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -210,7 +210,7 @@ async function build (gyp, argv) {
     await new Promise((resolve, reject) => proc.on('exit', async (code, signal) => {
       if (buildBinsDir) {
         // Clean up the build-time dependency symlinks:
-        await fs.rm(buildBinsDir, { recursive: true })
+        await fs.rm(buildBinsDir, { recursive: true, force: true })
       }
 
       if (code !== 0) {
-- 
2.43.0


From 540c57ba2d405ecabc4b029b352cbfc67d998323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 36/54] fix: a build tool that cannot be started fails the
 build like any other

---
 lib/build.js | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index c51e7c8..a4064ab 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -207,20 +207,25 @@ async function build (gyp, argv) {
     }
 
     const proc = gyp.spawn(command, argv)
-    await new Promise((resolve, reject) => proc.on('exit', async (code, signal) => {
+    try {
+      await new Promise((resolve, reject) => {
+        proc.on('error', reject)
+        proc.on('exit', (code, signal) => {
+          if (code !== 0) {
+            return reject(new Error('`' + command + '` failed with exit code: ' + code))
+          }
+          if (signal) {
+            return reject(new Error('`' + command + '` got signal: ' + signal))
+          }
+          resolve()
+        })
+      })
+    } finally {
       if (buildBinsDir) {
         // Clean up the build-time dependency symlinks:
         await fs.rm(buildBinsDir, { recursive: true, force: true })
       }
-
-      if (code !== 0) {
-        return reject(new Error('`' + command + '` failed with exit code: ' + code))
-      }
-      if (signal) {
-        return reject(new Error('`' + command + '` got signal: ' + signal))
-      }
-      resolve()
-    }))
+    }
   }
 }
 
-- 
2.43.0


From 51330e88a45c6c6fafe040908d87659c4dd98873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 37/54] fix: pass make its targets as they are on Windows too

---
 lib/build.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index a4064ab..150fb32 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -16,10 +16,6 @@ async function build (gyp, argv) {
     platformMake = 'gmake'
   } else if (process.platform.indexOf('bsd') !== -1) {
     platformMake = 'gmake'
-  } else if (win && argv.length > 0) {
-    argv = argv.map(function (target) {
-      return '/t:' + target
-    })
   }
 
   const makeCommand = gyp.opts.make || process.env.MAKE || platformMake
@@ -131,6 +127,12 @@ async function build (gyp, argv) {
     const verbose = log.logger.isVisible('verbose')
     let j
 
+    if (msvs) {
+      argv = argv.map(function (target) {
+        return '/t:' + target
+      })
+    }
+
     if (!msvs && verbose) {
       argv.push('V=1')
     }
-- 
2.43.0


From 9b552101a4a82103e5dff98a52dfc354ad0f90c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 38/54] fix: place the outputs of actions and rules in the
 source tree there

---
 gyp/pylib/gyp/generator/make.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 7251f1e..ef44c60 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1099,7 +1099,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     "%s%s" % (name, cd_action, command)
                 )
             self.WriteLn()
-            outputs = [self.Absolutify(o) for o in outputs]
+            outputs = [Sourceify(self.Absolutify(o)) for o in outputs]
             # The makefile rules are all relative to the top dir, but the gyp actions
             # are defined relative to their containing dir.  This replaces the obj
             # variable for the action rule with an absolute version so that the output
@@ -1205,7 +1205,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 outputs = [gyp.xcode_emulation.ExpandEnvVars(o, env) for o in outputs]
                 inputs = [gyp.xcode_emulation.ExpandEnvVars(i, env) for i in inputs]
 
-                outputs = [self.Absolutify(o) for o in outputs]
+                outputs = [Sourceify(self.Absolutify(o)) for o in outputs]
                 all_outputs += outputs
                 # Only write the 'obj' and 'builddir' rules for the "primary" output
                 # (:1); it's superfluous for the "extra outputs", and this avoids
-- 
2.43.0


From 5e0e0f27214f03e0ae288495884d09b71bf39209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 39/54] fix: find the listed object files of a target in the
 source tree

---
 gyp/pylib/gyp/generator/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index ef44c60..18d8b1d 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1533,7 +1533,11 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
 
         # If there are any object files in our input file list, link them into our
         # output.
-        extra_link_deps += [source for source in sources if Linkable(source)]
+        extra_link_deps += [
+            Sourceify(self.Absolutify(source))
+            for source in sources
+            if Linkable(source)
+        ]
 
         self.WriteLn()
 
-- 
2.43.0


From d78e4d1dccc0a1298f8d44313481745198481039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 40/54] fix: run commands with several outputs after the
 dependencies of their target

---
 gyp/pylib/gyp/generator/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 18d8b1d..8950aeb 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -789,6 +789,9 @@ class MakefileWriter:
         self.generator_flags = generator_flags
         self.flavor = flavor
 
+        # The intermediate files of the commands with more than one output.
+        self.intermediates = []
+
         self.suffix_rules_srcdir = {}
         self.suffix_rules_objdir1 = {}
         self.suffix_rules_objdir2 = {}
@@ -1716,7 +1719,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         if extra_outputs:
             self.WriteDependencyOnExtraOutputs(self.output_binary, extra_outputs)
             self.WriteMakeRule(
-                extra_outputs,
+                extra_outputs + self.intermediates,
                 deps,
                 comment=("Preserve order dependency of " "special output on deps."),
                 order_only=True,
@@ -2186,6 +2189,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 (command or self.target).encode("utf-8")
             ).hexdigest()
             intermediate = "%s.intermediate" % cmddigest
+            self.intermediates.append(intermediate)
             self.WriteLn("{}: {}".format(" ".join(outputs), intermediate))
             self.WriteLn("\t%s" % "@:")
             self.WriteLn("{}: {}".format(".INTERMEDIATE", intermediate))
-- 
2.43.0


From ea3add710b13596aae89808a59572cc5fe7f9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 41/54] fix: link a target of object files after its
 dependencies are built

---
 gyp/pylib/gyp/generator/make.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 8950aeb..ba4d2eb 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1716,6 +1716,14 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
 
         self.WriteLn("### Rules for final target.")
 
+        if deps and self.type != "none":
+            self.WriteMakeRule(
+                [self.output_binary],
+                deps,
+                comment="Make sure our dependencies are built before us.",
+                order_only=True,
+            )
+
         if extra_outputs:
             self.WriteDependencyOnExtraOutputs(self.output_binary, extra_outputs)
             self.WriteMakeRule(
-- 
2.43.0


From 3e34475d30abaf366833ddc8896587c25b294cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 42/54] fix: evaluate an array command that has a space after
 its parenthesis

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 255feec..8d574fa 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -903,7 +903,7 @@ def ExpandVariables(input, phase, variables, build_file):
 
         elif run_command:
             use_shell = True
-            if match["is_array"]:
+            if match["is_array"].strip():
                 contents = eval(contents)
                 use_shell = False
 
-- 
2.43.0


From 53949bfd5a6e6ee10c3e4d8932d6d0011d82abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 43/54] fix: do not mix up the cached results of shell and
 python module commands

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 8d574fa..ddb2d5f 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -916,7 +916,7 @@ def ExpandVariables(input, phase, variables, build_file):
             # is invoked it produces different output by design. When the need
             # arises, the syntax should be extended to support no caching off a
             # command's output so it is run every time.
-            cache_key = (str(contents), build_file_dir)
+            cache_key = (command_string, str(contents), build_file_dir)
             cached_value = cached_command_results.get(cache_key, None)
             if cached_value is None:
                 gyp.DebugOutput(
-- 
2.43.0


From 1a2a64069b1fee423b0a21b6509113b439672500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 44/54] fix: let --check accept integers in build files

---
 gyp/pylib/gyp/input.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index ddb2d5f..114f026 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -189,8 +189,8 @@ def CheckNode(node, keypath):
     if isinstance(node, ast.Dict):
         dict = {}
         for key, value in zip(node.keys, node.values):
-            assert isinstance(key, ast.Str)
-            key = key.s
+            assert isinstance(key, ast.Constant) and isinstance(key.value, str)
+            key = key.value
             if key in dict:
                 raise GypError(
                     "Key '"
@@ -212,8 +212,8 @@ def CheckNode(node, keypath):
             kp.append(repr(index))
             children.append(CheckNode(child, kp))
         return children
-    elif isinstance(node, ast.Str):
-        return node.s
+    elif isinstance(node, ast.Constant) and isinstance(node.value, (str, int)):
+        return node.value
     else:
         raise TypeError(
             "Unknown AST node at key path '" + ".".join(keypath) + "': " + repr(node)
-- 
2.43.0


From d199247408a69781a2fa3c17a88984b0fb463923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 45/54] fix: quote the regeneration command of makefiles for
 make

---
 gyp/pylib/gyp/generator/make.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index ba4d2eb..e744b6b 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2414,10 +2414,16 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-                " ".join(SourceifyAndQuoteSpaces(bf) for bf in sorted(build_files))
+                " ".join(
+                    SourceifyAndQuoteSpaces(EscapeMakeVariableExpansion(bf))
+                    for bf in sorted(build_files)
+                )
             ),
-            "cmd": replace_sep(gyp.common.EncodePOSIXShellList(
-                [gyp_binary, "-fmake"] + gyp.RegenerateFlags(options) + build_files_args
+            "cmd": replace_sep(" ".join(
+                EscapeCppDefine(arg)
+                for arg in [gyp_binary, "-fmake"]
+                + gyp.RegenerateFlags(options)
+                + build_files_args
             )),
         }
     )
-- 
2.43.0


From b35860ab7fec047cf4c6f87f3aa76de1eb5c37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 46/54] fix: give what links a shared library with another
 extension an rpath in makefiles

---
 gyp/pylib/gyp/generator/make.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index e744b6b..e35d4fa 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -778,6 +778,10 @@ target_outputs = {}
 # mybinary, we just want to build mybinary first.
 target_link_deps = {}
 
+# The link outputs that are shared libraries, whatever their extension: what is
+# linked with one of them needs an rpath.
+shared_library_outputs = set()
+
 
 class MakefileWriter:
     """MakefileWriter packages up the writing of one target-specific foobar.mk.
@@ -980,6 +984,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         # Update global list of link dependencies.
         if self.type in ("static_library", "shared_library"):
             target_link_deps[qualified_target] = self.output_binary
+            if self.type == "shared_library":
+                shared_library_outputs.add(self.output_binary)
 
         # Currently any versions have the same effect, but in future the behavior
         # could be different.
@@ -1763,7 +1769,12 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 else:
                     ldflags = config.get("ldflags", [])
                     # Compute an rpath for this output if needed.
-                    if any(dep.endswith(".so") or ".so." in dep for dep in deps):
+                    if any(
+                        dep.endswith(".so")
+                        or ".so." in dep
+                        or dep in shared_library_outputs
+                        for dep in deps
+                    ):
                         # We want to get the literal string "$ORIGIN"
                         # into the link command, so we need lots of escaping.
                         ldflags.append(r"-Wl,-rpath=\$$ORIGIN/")
-- 
2.43.0


From 97c0a1041c7d276bf2c81c1cf2eb13a8eefd417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 47/54] fix: let make_global_settings name the archiver of
 makefiles

---
 gyp/pylib/gyp/generator/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index e35d4fa..30fd7b0 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2643,7 +2643,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
         if wrapper:
             value = f"{wrapper} {value}"
             del wrappers[key]
-        if key in ("CC", "CC.host", "CXX", "CXX.host"):
+        if key in ("AR", "CC", "CC.host", "CXX", "CXX.host"):
             make_global_settings += (
                 "ifneq (,$(filter $(origin %s), undefined default))\n" % key
             )
-- 
2.43.0


From 710c612b6e591d6eb660a4529acaac662c9e0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:38 +0000
Subject: [PATCH 48/54] fix: put makefiles in place only when they are complete

---
 gyp/pylib/gyp/generator/make.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 30fd7b0..e893bae 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -854,7 +854,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         gyp.common.EnsureDirExists(output_filename)
 
-        self.fp = open(output_filename, "w")
+        self.fp = open(output_filename + ".tmp", "w")
 
         self.fp.write(header)
 
@@ -993,6 +993,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             self.WriteAndroidNdkModuleRule(self.target, all_sources, link_deps)
 
         self.fp.close()
+        os.replace(output_filename + ".tmp", output_filename)
 
     def WriteSubMake(self, output_filename, makefile_path, targets, build_dir):
         """Write a "sub-project" Makefile.
@@ -1007,7 +1008,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
           build_dir: build output directory, relative to the sub-project
         """
         gyp.common.EnsureDirExists(output_filename)
-        self.fp = open(output_filename, "w")
+        self.fp = open(output_filename + ".tmp", "w")
         self.fp.write(header)
         # For consistency with other builders, put sub-project build output in the
         # sub-project dir (see test/subdirectory/gyptest-subdir-all.py).
@@ -1021,6 +1022,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             makefile_path = " -C " + makefile_path
         self.WriteLn("\t$(MAKE){} {}".format(makefile_path, " ".join(targets)))
         self.fp.close()
+        os.replace(output_filename + ".tmp", output_filename)
 
     def WriteActions(
         self,
@@ -2661,7 +2663,9 @@ def GenerateOutput(target_list, target_dicts, data, params):
     header_params["make_global_settings"] = make_global_settings
 
     gyp.common.EnsureDirExists(makefile_path)
-    root_makefile = open(makefile_path, "w")
+    # Only a complete makefile may take the place of an earlier one: a truncated
+    # one builds nothing, successfully.
+    root_makefile = open(makefile_path + ".tmp", "w")
     root_makefile.write(SHARED_HEADER % header_params)
     # Currently any versions have the same effect, but in future the behavior
     # could be different.
@@ -2791,3 +2795,4 @@ def GenerateOutput(target_list, target_dicts, data, params):
     root_makefile.write(SHARED_FOOTER)
 
     root_makefile.close()
+    os.replace(makefile_path + ".tmp", makefile_path)
-- 
2.43.0


From dc69e23fa66b24b7d39231aff5dd0d8b1a2426ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:02 +0000
Subject: [PATCH 49/54] fix: follow settings that name a path made of digits

---
 gyp/pylib/gyp/input.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 114f026..8957a05 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2199,7 +2199,10 @@ def MakePathRelative(to_file, fro_file, item):
     #   "/' Used when a value is quoted.  If these are present, then we
     #       check the second character instead.
     #
-    if to_file == fro_file or exception_re.match(item):
+    # A name that is all digits has become an integer by the time dependents'
+    # settings are merged.
+    path = str(item)
+    if to_file == fro_file or exception_re.match(path):
         return item
     else:
         # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
@@ -2210,12 +2213,12 @@ def MakePathRelative(to_file, fro_file, item):
                 gyp.common.RelativePath(
                     os.path.dirname(fro_file), os.path.dirname(to_file)
                 ),
-                item,
+                path,
             )
         ).replace("\\", "/")
-        if item.endswith("/"):
+        if path.endswith("/"):
             ret += "/"
-        return ret
+        return item if ret == path else ret
 
 
 def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
-- 
2.43.0


From bfd4d3e08bce7475bd43ab7fb33656e837b1416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:33 +0000
Subject: [PATCH 50/54] fix: accept names made of digits

---
 gyp/pylib/gyp/common.py | 4 +++-
 gyp/pylib/gyp/input.py  | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 00f802e..91f1ad7 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -58,6 +58,8 @@ def FindQualifiedTargets(target, qualified_list):
 
 def ParseQualifiedTarget(target):
     # Splits a qualified target into a build file, target name and toolset.
+    # (A name that is all digits may have become an integer.)
+    target = str(target)
 
     # NOTE: rsplit is used to disambiguate the Windows drive letter separator.
     target_split = target.rsplit(":", 1)
@@ -128,7 +130,7 @@ def QualifiedTarget(build_file, target, toolset):
     # "Qualified" means the file that a target was defined in and the target
     # name, separated by a colon, suffixed by a # and the toolset name:
     # /path/to/file.gyp:target_name#toolset
-    fully_qualified = build_file + ":" + target
+    fully_qualified = build_file + ":" + str(target)
     if toolset:
         fully_qualified = fully_qualified + "#" + toolset
     return fully_qualified
diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 8957a05..7d2b694 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2425,7 +2425,7 @@ def MergeConfigWithInheritance(
             new_configuration_dict,
             build_file,
             target_dict,
-            parent,
+            str(parent),
             visited + [configuration],
         )
 
@@ -2754,7 +2754,7 @@ def ValidateRulesInTarget(target, target_dict, extra_sources_for_rules):
             )
         rule_names[rule_name] = rule
 
-        rule_extension = rule["extension"]
+        rule_extension = str(rule["extension"])
         if rule_extension.startswith("."):
             rule_extension = rule_extension[1:]
         if rule_extension in rule_extensions:
@@ -2785,7 +2785,7 @@ def ValidateRulesInTarget(target, target_dict, extra_sources_for_rules):
         source_keys.extend(extra_sources_for_rules)
         for source_key in source_keys:
             for source in target_dict.get(source_key, []):
-                (source_root, source_extension) = os.path.splitext(source)
+                (source_root, source_extension) = os.path.splitext(str(source))
                 if source_extension.startswith("."):
                     source_extension = source_extension[1:]
                 if source_extension == rule_extension:
-- 
2.43.0


From b32c7bba8db097f6e5b0767babf3350e28418321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 51/54] fix: accept negative integers with --check

---
 gyp/pylib/gyp/input.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 7d2b694..2143d5f 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -214,6 +214,13 @@ def CheckNode(node, keypath):
         return children
     elif isinstance(node, ast.Constant) and isinstance(node.value, (str, int)):
         return node.value
+    elif (
+        isinstance(node, ast.UnaryOp)
+        and isinstance(node.op, ast.USub)
+        and isinstance(node.operand, ast.Constant)
+        and isinstance(node.operand.value, int)
+    ):
+        return -node.operand.value
     else:
         raise TypeError(
             "Unknown AST node at key path '" + ".".join(keypath) + "': " + repr(node)
-- 
2.43.0


From 8198e1783397ef62b897801ece639d5f9e7451e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:55 +0000
Subject: [PATCH 52/54] fix: find targets named by digits with toolset
 wildcards

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 2143d5f..ff3e1d9 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1588,7 +1588,7 @@ def ExpandWildcardDependencies(targets, data):
                 for dependency_target_dict in dependency_target_dicts:
                     if int(dependency_target_dict.get("suppress_wildcard", False)):
                         continue
-                    dependency_target_name = dependency_target_dict["target_name"]
+                    dependency_target_name = str(dependency_target_dict["target_name"])
                     if (
                         dependency_target not in {"*", dependency_target_name}
                     ):
-- 
2.43.0


From e43a84b7dabdfb03f0d901daea4ea1f564548a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 53/54] fix: take exported settings from targets that are not
 wanted themselves

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index ff3e1d9..18a7aa2 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -3051,6 +3051,8 @@ def Load(
 
     [dependency_nodes, flat_list] = BuildDependencyList(targets)
 
+    # An exported target need not be a dependency of what is wanted.
+    all_targets = targets
     if root_targets:
         # Remove, from |targets| and |flat_list|, the targets that are not deep
         # dependencies of the targets specified in |root_targets|.
@@ -3067,7 +3069,7 @@ def Load(
         "direct_dependent_settings",
         "link_settings",
     ]:
-        DoDependentSettings(settings_type, flat_list, targets, dependency_nodes)
+        DoDependentSettings(settings_type, flat_list, all_targets, dependency_nodes)
 
         # Take out the dependent settings now that they've been published to all
         # of the targets that require them.
-- 
2.43.0


From 40c69ad2f62a335ae593a92634c7820b60fb7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:20 +0000
Subject: [PATCH 54/54] fix: ask for changed static libraries that nothing
 links in any order

---
 gyp/pylib/gyp/generator/analyzer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 50c96c6..08d0bf1 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -542,6 +542,14 @@ def _GetCompileTargets(matching_targets, supplied_targets):
     for target in matching_targets:
         print("finding compile targets for match", target.name)
         _AddCompileTargets(target, supplied_targets, True, result)
+    # A static library may have been visited as the ancestor of another match.
+    for target in matching_targets:
+        if (
+            target.is_static_library
+            and target.in_roots
+            and not target.is_or_has_linked_ancestor
+        ):
+            result.add(target)
     return result
 
 
-- 
2.43.0

