From 18d49805cb6f29041abd9075baf27d40a37b6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 01/28] fix: keep the letter case of pylint arguments when
 resolving enable/disable all

---
 edulint/config/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..a247c6d 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -156,17 +156,17 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
-            if arg == "--enable=noop":
+            lowered = arg.lower()
+            if lowered == "--enable=noop":
                 pass
-            elif arg in ("--disable=all", "--enable=all"):
+            elif lowered in ("--disable=all", "--enable=all"):
                 if all_set:
                     continue
                 all_set = True
-                enable = arg == "--enable=all"
+                enable = lowered == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (lowered.startswith("--disable") and enable)
+                or (lowered.startswith("--enable") and not enable)
             ):
                 continue
             result.append(arg)
-- 
2.43.0


From d34f1a3d887aa6c4e9a68b8295c005441613ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 02/28] fix: find the implicit configuration file in parent
 folders

---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index a247c6d..b342e26 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -342,7 +342,7 @@ def search_for_config_in_parents(path):
     path = (path.parent if path.is_file() else path).absolute()
     while path.parent != path:
         for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
+            if elem.name in IMPLICIT_CONFIG_FILENAMES:
                 return str(path / elem)
         path = path.parent
     return None
-- 
2.43.0


From 7a4cb54741db60ae16324e657c5158f005f3bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 03/28] fix: load the downloaded explanations instead of the
 packaged ones

---
 edulint/explanations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..3e68cee 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -44,7 +44,7 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
+        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "rb") as f:
             return tomli.load(f)
     except:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
-- 
2.43.0


From b9eaba0eddce75954d4be029afabca74b50991d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 04/28] fix: do not leak translations of one configuration into
 another via the language file

---
 edulint/config/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index b342e26..0e1ba27 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -587,12 +587,11 @@ def get_config_many(
         iconfig = config.to_immutable(option_sets)
         language_file = iconfig[Option.LANGUAGE_FILE]
         if language_file is not None:
-            lang_file_translations = lang_file_results.get(
-                language_file, parse_lang_file(iconfig[Option.LANGUAGE_FILE])
-            )
+            if language_file not in lang_file_results:
+                lang_file_results[language_file] = parse_lang_file(language_file)
+            lang_file_translations = lang_file_results[language_file]
             if lang_file_translations is not None:
                 lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From c59f36843527f580cddae003980f272879bac40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 05/28] fix: group files by their settings, not by the
 settings' effect without option sets

---
 edulint/config/config.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 0e1ba27..b72201f 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -499,24 +499,28 @@ def _ignore_infile(config: Config) -> bool:
 
 def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
-) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
+) -> Dict[Any, Tuple[Config, List[str]]]:
 
-    def add_to_result(result, config, path, iconfig=None):
-        iconfig = config.to_immutable() if iconfig is None else iconfig
-        if iconfig not in result:
-            result[iconfig] = (config, [path])
-        else:
-            result[iconfig][1].append(path)
+    def get_key(config):
+        # the order of the options and their presence matter once option sets are applied
+        return (
+            tuple(
+                ImmutableArg(arg.option, Config._to_immutable(arg.val))
+                for arg in config.config
+                if arg is not None
+            ),
+            hashabledict(config.enablers),
+        )
 
     def aggregate_subresults(paths):
         result = {}
         for path in paths:
             subresult = _parse_infile_configs_rec(path)
-            for iconfig, (config, subpaths) in subresult.items():
-                if iconfig not in result:
-                    result[iconfig] = (config, subpaths)
+            for key, (config, subpaths) in subresult.items():
+                if key not in result:
+                    result[key] = (config, subpaths)
                 else:
-                    result[iconfig][1].extend(subpaths)
+                    result[key][1].extend(subpaths)
         return result
 
     def _parse_infile_configs_rec(path: str):
@@ -525,19 +529,19 @@ def _parse_infile_configs(
                 return {}
 
             infile_config = parse_infile_config(path, option_parses)
-            return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
+            return {get_key(infile_config): (infile_config, [path])}
 
         result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
 
         if len(result) != 1:
             return result
 
-        iconfig, (config, _paths) = list(result.items())[0]
-        return {iconfig: (config, [path])}
+        key, (config, _paths) = list(result.items())[0]
+        return {key: (config, [path])}
 
     if _ignore_infile(cmd_config):
         default_config = _get_default_config(option_parses)[0]
-        return {default_config.to_immutable(): (default_config, files_or_dirs)}
+        return {get_key(default_config): (default_config, files_or_dirs)}
 
     return aggregate_subresults(files_or_dirs)
 
@@ -555,7 +559,10 @@ def get_config_many(
     if cmd_config_path is not None:
         config_paths = {cmd_config_path}
     else:
-        config_paths = {iconfig[Option.CONFIG_FILE] for iconfig in infile_configs.keys()}
+        config_paths = {
+            infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
+            for infile_config, _paths in infile_configs.values()
+        }
 
     config_file_results = {
         config_path: parse_config_file(config_path, option_parses) for config_path in config_paths
-- 
2.43.0


From f877db44f633459d6b023ad574ef6551cef12d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 06/28] fix: do not crash on lists of non-strings in the config
 file

---
 edulint/config/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index d0ca572..3e640ff 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -19,7 +19,8 @@ def config_file_val_to_str(option: Union[Option, str], val: Any) -> Optional[str
     if isinstance(val, str):
         return val
     if isinstance(val, list):
-        return ",".join(val)
+        vals = [config_file_val_to_str(option, elem) for elem in val]
+        return ",".join(elem for elem in vals if elem is not None)
     if isinstance(val, tuple):
         key, value = val
         value = config_file_val_to_str(option, value)
-- 
2.43.0


From 1e291df1264ec0b692289a48512bbad6968e69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 07/28] fix: do not crash on translations of invalid type in
 the config file

---
 edulint/config/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index b72201f..2bfa484 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -393,9 +393,9 @@ def parse_config_file(
     this_file_lang_translations = {}
     for name, val in config_dict.items():
         if name == OPTION_SETS_LABEL:
-            this_file_option_sets = parse_option_sets(val)
+            this_file_option_sets = parse_option_sets(val) or {}
         elif name == LANG_TRANSLATIONS_LABEL:
-            this_file_lang_translations = parse_lang_translations(val)
+            this_file_lang_translations = parse_lang_translations(val) or {}
         elif name == DEFAULT_ENABLER_LABEL:
             continue
         else:
-- 
2.43.0


From 4b01dd960e3221e8a0e3efa43866703f0da20ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 08/28] fix: reject option set translations to edulint, which
 has no option

---
 edulint/config/option_sets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index ae33a68..418ebdb 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -39,11 +39,13 @@ def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
         option_set = OptionSet()
         for linter_str, translated in to.items():
             linter = Linter.safe_from_name(linter_str)
-            if linter is None:
+            if linter is None or linter == Linter.EDULINT:
                 logger.warning(
                     "invalid value {linter} where one of {linters} is expected",
                     linter=linter_str,
-                    linters=", ".join(linter.to_name() for linter in Linter),
+                    linters=", ".join(
+                        linter.to_name() for linter in Linter if linter != Linter.EDULINT
+                    ),
                 )
                 continue
 
-- 
2.43.0


From e4be745c44963059fb6952cc8eadbd32fae3ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 09/28] fix: do not crash on a language file of invalid type in
 the config file

---
 edulint/config/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 2bfa484..039df9c 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -406,6 +406,9 @@ def parse_config_file(
                 continue
 
             if option == Option.LANGUAGE_FILE:
+                if not isinstance(val, str):
+                    print_invalid_type_message(option, val)
+                    continue
                 val = get_path_relative_to(val, path)
 
             if not isinstance(val, dict):
-- 
2.43.0


From 6fcf44f30d8e40f79a0c7fa72e5179b2726bcf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 10/28] fix: ignore a default enabler name of invalid type in
 the config file

---
 edulint/config/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 039df9c..9d33848 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -425,6 +425,9 @@ def parse_config_file(
                     result.append(UnprocessedArg(option, str_val))
 
     enabler_name = config_dict.get(DEFAULT_ENABLER_LABEL, Path(path).stem)
+    if not isinstance(enabler_name, str):
+        print_invalid_type_message(DEFAULT_ENABLER_LABEL, enabler_name)
+        enabler_name = Path(path).stem
     this_file_config = Config(enabler_name, result, option_parses)
     return (
         Config.combine(base_config, this_file_config),
-- 
2.43.0


From b623ae2c58888514d78ddea80d921c11c02f2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 11/28] fix: skip translated extracts of invalid type

---
 edulint/config/language_translations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bd8f3d0..e45575e 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -123,6 +123,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             type=type(translated_extracts),
         )
         translated_extracts = {}
+    valid_extracts = {}
     for id_, val in translated_extracts.items():
         if not isinstance(val, dict):
             logger.warning(
@@ -131,6 +132,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                 type=type(val),
             )
             continue
+        valid_extracts[id_] = {}
         for order, mapping in val.items():
             if not order.isdecimal():
                 logger.warning(
@@ -146,6 +148,11 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                     type=type(mapping),
                 )
                 continue
+            valid_extracts[id_][order] = {
+                extract: translated
+                for extract, translated in mapping.items()
+                if isinstance(translated, str)
+            }
             for extract, translated in mapping.items():
                 if not isinstance(translated, str):
                     logger.warning(
@@ -168,7 +175,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             )
             continue
 
-        lang_translations[id_] = Translation(translation, translated_extracts.get(id_, {}))
+        lang_translations[id_] = Translation(translation, valid_extracts.get(id_, {}))
 
     return lang_translations
 
-- 
2.43.0


From ad9869182edcc3ad5e040573176c0940b9263cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 12/28] fix: report config files based on themselves instead of
 recursing forever

---
 edulint/config/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 9d33848..1d70a76 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -365,7 +365,7 @@ def parse_infile_config(path: str, option_parses: Dict[Option, OptionParse]) ->
 
 
 def parse_config_file(
-    path: str, option_parses: Dict[Option, OptionParse]
+    path: str, option_parses: Dict[Option, OptionParse], derived: Tuple[str, ...] = ()
 ) -> Optional[Tuple[Config, OptionSets, LangTranslations]]:
     def parse_base_config(config_dict: Dict[str, Any]) -> Optional[Config]:
         rec_config = config_dict.get(Option.CONFIG_FILE.to_name(), BASE_CONFIG)
@@ -373,7 +373,10 @@ def parse_config_file(
             print_invalid_type_message(Option.CONFIG_FILE, rec_config)
             rec_config = BASE_CONFIG
         rec_config_abspath = get_path_relative_to(rec_config, path)
-        return parse_config_file(rec_config_abspath, option_parses)
+        if rec_config_abspath in (*derived, path):
+            logger.error("config file '{f}' is based on itself", f=path)
+            return None
+        return parse_config_file(rec_config_abspath, option_parses, (*derived, path))
 
     config_dict = load_toml_file(path)
     if config_dict is None:
-- 
2.43.0


From 31457e73c690f6f74db2e2aeb4723b2e04215024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 13/28] fix: do not exit with the status of clean code after an
 unexpected error

---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..cdcbc9f 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -286,7 +286,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(default=2)
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
-- 
2.43.0


From 5d7fc9cbcb102af49731be1bdffabf983ee78981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 14/28] fix: restore the standard streams when a linter raises
 an exception

---
 edulint/linting/linting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..23df21b 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -171,9 +171,9 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    finally:
+        sys.stdout = old_stdout
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -204,8 +204,8 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stderr = old_stderr
+    finally:
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From a6b2ae68f669ae9672a907dc3eaa893b7fded758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 15/28] fix: do not crash on constant expressions whose
 evaluation overflows or divides by zero

---
 edulint/linting/analyses/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 26d08be..2aeeac4 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -443,7 +443,7 @@ def get_const_value_rec(node: Any) -> Any:
 def get_const_value(node: Any) -> Any:
     try:
         return get_const_value_rec(node)
-    except (ValueError, KeyError, TypeError):
+    except (ValueError, KeyError, TypeError, ArithmeticError, MemoryError):
         return None
 
 
-- 
2.43.0


From 05696382533a03a25d94e74cf4084b133c8e2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 16/28] fix: do not take chained comparisons and comparisons of
 different values for negations

---
 edulint/linting/analyses/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 2aeeac4..c920b9b 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -676,10 +676,10 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
             return False
 
         if negated_rt and ops_match(lt, rt, lambda op: op):
-            return all_are_negations(to_values(lt), to_values(rt), negated_rt)
+            return all(map(have_same_value, to_values(lt), to_values(rt)))
 
-        if not negated_rt and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
-            return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
+        if not negated_rt and len(lt.ops) == 1 and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
+            return all(map(have_same_value, to_values(lt), to_values(rt)))
 
         if not negated_rt and mod_two_negation(lt, rt):
             return True
-- 
2.43.0


From c0ea70a21d8eb09f68940d5354ea0768d69c4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 17/28] fix: only take comparisons of remainders modulo two for
 negations if they are

---
 edulint/linting/analyses/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index c920b9b..309caf8 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -643,20 +643,23 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if op not in ("==", "!=") or is_mod_two(left) == is_mod_two(right):
             return False
 
-        # MAYBE check if value equal to mod is 0 or 1?
         return True
 
     def mod_two_negation(lt: nodes.NodeNG, rt: nodes.NodeNG):
         if not is_eq_mod_two(lt) or not is_eq_mod_two(rt):
             return False
 
-        lt_lt, (_, lt_rt) = lt.left, lt.ops[0]
-        rt_lt, (_, rt_rt) = rt.left, rt.ops[0]
+        lt_lt, (lt_op, lt_rt) = lt.left, lt.ops[0]
+        rt_lt, (rt_op, rt_rt) = rt.left, rt.ops[0]
 
         lt_mod, lt_val = (lt_lt, lt_rt) if is_mod_two(lt_lt) else (lt_rt, lt_lt)
         rt_mod, rt_val = (rt_lt, rt_rt) if is_mod_two(rt_lt) else (rt_rt, rt_lt)
 
-        return have_same_value(lt_mod.left, rt_mod.left) and not have_same_value(lt_val, rt_val)
+        return (
+            lt_op == rt_op
+            and have_same_value(lt_mod.left, rt_mod.left)
+            and {get_const_value(lt_val), get_const_value(rt_val)} == {0, 1}
+        )
 
     lt, negated_rt = strip_nots(lt, negated_rt)
     rt, negated_rt = strip_nots(rt, negated_rt)
-- 
2.43.0


From 908fe5c173aba727695693b8e191b49e7dead1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 18/28] fix: do not encode division by zero and integer
 division by negative numbers

---
 edulint/linting/analyses/z3_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 3bb90a9..dccf122 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -321,9 +321,11 @@ def convert_condition_to_z3_expression(
             modulo = get_const_value(node.right)
             z3_expr = left % get_const_value(node.right) if modulo > 1 else None
         elif node.op == "//":
-            z3_expr = left / get_const_value(node.right)
+            divisor = get_const_value(node.right)
+            z3_expr = left / divisor if divisor > 0 else None
         elif node.op == "/":
-            z3_expr = left / float(get_const_value(node.right))
+            divisor = float(get_const_value(node.right))
+            z3_expr = left / divisor if divisor != 0 else None
         elif node.op == "+":
             z3_expr = left + right
         elif node.op == "-":
-- 
2.43.0


From 4db680f266092656b5bce2ba364b53d582d3e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 19/28] fix: do not crash when encoding calls of abs

---
 edulint/linting/analyses/z3_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index dccf122..958fdef 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -102,6 +102,7 @@ def _is_abs_function(node: nodes.NodeNG) -> bool:
         isinstance(node, nodes.Call)
         and isinstance(node.func, nodes.Name)
         and node.func.name == "abs"
+        and len(node.args) == 1
     )
 
 
@@ -239,6 +240,8 @@ def convert_condition_to_z3_expression(
         expr, conversion_to_bool = convert_condition_to_z3_expression(
             node.args[0], initialized_variables, node
         )
+        if expr is None:
+            return None, False
         expr, bool_conversion = _convert_to_bool_if_necessary(node, parent, z3.Abs(expr))
         return expr, bool_conversion or conversion_to_bool
 
-- 
2.43.0


From 48aed8152611b5b71ac1fc5107f05eeb22721b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 20/28] fix: do not announce an update when the latest version
 is unknown

---
 edulint/versions/version_checker.py | 220 ++++++++++++++--------------
 1 file changed, 110 insertions(+), 110 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..49885da 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,110 +1,110 @@
-from typing import Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+            package_info = PackageInfo.from_dict(data.get(package_name, {}))
+            return package_info
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
+            latest_version_str = str(sorted_versions[-1])
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        
+        return latest_version is not None and local_package_version != latest_version  # This presumes local version is never higher than pypi version
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From e755460b9e36bc9e1c578a722ddc5ba08d2280dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 21/28] fix: do not crash on translation templates that cannot
 be filled in

---
 edulint/config/language_translations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index e45575e..883a41f 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -101,7 +101,10 @@ class Translation:
         match = re.match(pattern, message, flags=re.IGNORECASE)
         if not match:
             return self.translation
-        return self.translation.format(*self.translate_extracts(match.groups()))
+        try:
+            return self.translation.format(*self.translate_extracts(match.groups()))
+        except (LookupError, ValueError, AttributeError):
+            return self.translation
 
 
 LangTranslations = Dict[str, Translation]
-- 
2.43.0


From 1dd4e282a218604a90626cb53fee901fb3f8941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 22/28] fix: handle paths through symlinks and parent folders

---
 edulint/linting/linting.py | 43 ++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 23df21b..e6f44fb 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -1,5 +1,5 @@
 from io import StringIO
-from typing import List, Callable, Tuple, Dict, Set, Any
+from typing import List, Callable, Tuple, Dict, Set, Any, Optional
 from edulint.linting.problem import ProblemJson, Problem
 from edulint.linting.nonparsing_checkers import report_infile_config
 from edulint.linting.process_handler import ProcessHandler
@@ -49,6 +49,16 @@ def is_pylint_out_of_file_problem(path):
     return any(segment in path.lower() for segment in ("command line", "configuration file"))
 
 
+def find_file_or_dir(path: Path, files_or_dirs: List[Path]) -> Optional[Tuple[int, Path]]:
+    for to_abs in (lambda p: Path(os.path.abspath(p)), Path.resolve):
+        abs_path = to_abs(path)
+        for i, fd in enumerate(files_or_dirs):
+            abs_fd = to_abs(fd)
+            if abs_fd == abs_path or abs_fd in abs_path.parents:
+                return i, abs_path
+    return None
+
+
 def pylint_to_problem(
     files_or_dirs: List[str], enablers: Dict[str, str], raw: ProblemJson
 ) -> Problem:
@@ -69,23 +79,12 @@ def pylint_to_problem(
         if is_pylint_out_of_file_problem(path):
             return path
 
-        path = Path(path)
-        abs_path = path.resolve()
-        for fd in [Path(path) for path in files_or_dirs]:
-            abs_fd = fd.resolve()
-            if abs_fd == abs_path or abs_fd in abs_path.parents:
-                if fd.is_absolute():
-                    return abs_path
-                else:
-                    cwd_parts = Path.cwd().parts
-                    abs_path_parts = abs_path.parts
-
-                    for i in range(min(len(cwd_parts), len(abs_path_parts))):
-                        if cwd_parts[i] != abs_path_parts[i]:
-                            break
-
-                    return Path(*[".."] * (len(cwd_parts) - i), *abs_path_parts[i:])
-        assert False, f"unreachable, but {path}"
+        found = find_file_or_dir(Path(path), [Path(path) for path in files_or_dirs])
+        assert found is not None, f"unreachable, but {path}"
+        fd_index, abs_path = found
+        if os.path.isabs(files_or_dirs[fd_index]):
+            return abs_path
+        return os.path.relpath(abs_path)
 
     code_enabler = enablers.get(raw["messageId"])
     symbol_enabler = enablers.get(raw["symbol"])
@@ -264,11 +263,9 @@ def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
-        for i, fd in enumerate(files_or_dirs):
-            if fd == path or fd in path.parents:
-                return i
-        assert False, "unreachable"
+        found = find_file_or_dir(Path(path), files_or_dirs)
+        assert found is not None, f"unreachable, but {path}"
+        return found[0]
 
     problems.sort(
         key=lambda problem: (
-- 
2.43.0


From fcb52338a4a2b33f54adfb29e76ee2be2809dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 23/28] fix: keep the line endings of version_checker.py

---
 edulint/versions/version_checker.py | 220 ++++++++++++++--------------
 1 file changed, 110 insertions(+), 110 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 49885da..1aa215a 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,110 +1,110 @@
-from typing import Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return latest_version is not None and local_package_version != latest_version  # This presumes local version is never higher than pypi version
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+            package_info = PackageInfo.from_dict(data.get(package_name, {}))
+            return package_info
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
+            latest_version_str = str(sorted_versions[-1])
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        
+        return latest_version is not None and local_package_version != latest_version  # This presumes local version is never higher than pypi version
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From 0dc311f5a910575fd10a8e66c20b8b104b8d870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 24/28] fix: connect else branches and exception handlers
 starting with a loop

---
 edulint/linting/analyses/cfg/visitor.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 1a3c32c..29128db 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -374,9 +374,10 @@ class CFGVisitor:
             if len(h.locs) == 0:
                 # h was overtaken by link_or_merge
                 assert len(handler.body) > 0
-                handler.body[0].cfg_loc.block.add_CF_statement(handler)
-            else:
-                h.add_CF_statement(handler)
+                overtaken_h, h = h, handler.body[0].cfg_loc.block
+                for _node, exits in self._control_boundaries:
+                    exits.update({exc: h for exc, block in exits.items() if block is overtaken_h})
+            h.add_CF_statement(handler)
 
             self._current_cfg.link_or_merge(end_handler, finally_block)
             after_body.append(h)
@@ -384,10 +385,14 @@ class CFGVisitor:
         if node.orelse == []:
             after_body.append(finally_block)
         else:
-            self._current_block = self._current_cfg.create_block()
-            after_body.append(self._current_block)
+            else_block = self._current_cfg.create_block()
+            self._current_block = else_block
             for child in node.orelse:
                 child.accept(self)
+            if len(else_block.locs) == 0:
+                # else_block was overtaken by link_or_merge
+                else_block = node.orelse[0].cfg_loc.block
+            after_body.append(else_block)
             self._current_cfg.link_or_merge(self._current_block, finally_block)
 
         # Construct the try body so reset current block to this node's block
-- 
2.43.0


From 54767bc8ad29d365b724e588cc862c0fa21f9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 25/28] fix: do not update explanations when the updates are
 disabled

---
 edulint/edulint.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index cdcbc9f..d4fbf5a 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -230,7 +230,9 @@ def check_code(
     return _check_code(files_or_dirs, options, get_option_parses())
 
 
-def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[str, Dict[str, str]]:
+def get_message_explanations(
+    message_ids: Optional[List[str]] = None, disable_explanations_update: bool = False
+) -> Dict[str, Dict[str, str]]:
     """
     Returns explanations for given message ids. If an explanation is requested
     for a message id that does not have an explanation, the warning is
@@ -239,13 +241,16 @@ def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[st
     :param message_ids: An optional list of message ids to receive explanations
       for. If None is passed, returns all available explanations.
     :type message_ids: List[str] | None
+    :param disable_explanations_update: Whether explanations should not be updated
+      in the background.
+    :type disable_explanations_update: bool
     :returns: A dictionary with message ids as keys and explanations as values.
       Each explanations is a dictionary with optional keys "why" and "examples".
       "Why" Contains rationale for why the pattern should be avoided. "Examples"
       contains examples of erroneous and corrected code.
     :rtype: Dict[str, Dict[str, str]]
     """
-    explanations = get_explanations()
+    explanations = get_explanations(disable_explanations_update)
     message_ids = message_ids if message_ids is not None else explanations.keys()
 
     m_id_expls = {}
@@ -262,7 +267,7 @@ def print_message_explanations(args):
     message_ids = (
         args.message_ids if not any(id_.lower() == "all" for id_ in args.message_ids) else None
     )
-    m_id_expls = get_message_explanations(message_ids)
+    m_id_expls = get_message_explanations(message_ids, args.disable_explanations_update)
     if args.json:
         data = {"explanations": m_id_expls}
         print(json.dumps(data, indent=2))
-- 
2.43.0


From 2306e87dc81bde4b6a465c0334d747be5060e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 26/28] fix: do not crash on translation templates that index
 their parts by names

---
 edulint/config/language_translations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 883a41f..a043693 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -103,7 +103,7 @@ class Translation:
             return self.translation
         try:
             return self.translation.format(*self.translate_extracts(match.groups()))
-        except (LookupError, ValueError, AttributeError):
+        except (LookupError, ValueError, AttributeError, TypeError, MemoryError):
             return self.translation
 
 
-- 
2.43.0


From cb708e0a808ee72d5ea135b6a87b5c2254c104e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 27/28] fix: a failed write leaves no partial remote
 configuration in the cache

---
 edulint/config/file_config.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..ebf35d0 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -4,6 +4,7 @@ import os
 from typing import Dict, Any, Optional
 import hashlib
 import json
+import tempfile
 import time
 from loguru import logger
 from enum import Enum, auto
@@ -191,21 +192,22 @@ class CachedHTTPGet:
         base_filepath = cls._get_filepath_from_source(source)
         return base_filepath.with_suffix(base_filepath.suffix + ".metadata")
 
+    @staticmethod
+    def _write_file(path: Path, content: str) -> None:
+        # a failed or interrupted write must not leave a part of the content in the cache
+        with tempfile.TemporaryDirectory(dir=path.parent) as folder:
+            written = os.path.join(folder, path.name)
+            with open(written, "w", encoding="utf8") as f:
+                f.write(content)
+            os.replace(written, path)
+
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
-                # security: writing arbitrary content from web is not great, but at least it's written as text
-                f.write(content)
-            with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
-                json.dump(
-                    {
-                        "timestamp": cls._get_timestamp(),
-                        "source": source,
-                    },
-                    f,
-                    indent=4,
-                )
+            # security: writing arbitrary content from web is not great, but at least it's written as text
+            cls._write_file(cls._get_filepath_from_source(source), content)
+            metadata = {"timestamp": cls._get_timestamp(), "source": source}
+            cls._write_file(cls._get_metadata_filepath(source), json.dumps(metadata, indent=4))
         except Exception as e:
             logger.error("saving cache file for configuration failed:\n {e}", e=e)
 
-- 
2.43.0


From 8368b6cce8892541f8e76f2191e0a0470f9a3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 28/28] fix: do not crash when encoding infinite constants and
 divisors that are not floats

---
 edulint/linting/analyses/z3_analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 958fdef..04cb069 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -1,4 +1,6 @@
 from __future__ import annotations
+import math
+import sys
 from typing import List, Optional, Dict, Tuple, TYPE_CHECKING
 
 from astroid import nodes
@@ -210,7 +212,7 @@ def _convert_const_to_z3(node: nodes.Const) -> Optional[z3.ExprRef]:
     if isinstance(node.value, int):
         return z3.IntVal(node.value)
 
-    if isinstance(node.value, float):
+    if isinstance(node.value, float) and math.isfinite(node.value):
         return z3.RealVal(node.value)
 
     return None
@@ -327,8 +329,8 @@ def convert_condition_to_z3_expression(
             divisor = get_const_value(node.right)
             z3_expr = left / divisor if divisor > 0 else None
         elif node.op == "/":
-            divisor = float(get_const_value(node.right))
-            z3_expr = left / divisor if divisor != 0 else None
+            divisor = get_const_value(node.right)
+            z3_expr = left / float(divisor) if 0 < abs(divisor) <= sys.float_info.max else None
         elif node.op == "+":
             z3_expr = left + right
         elif node.op == "-":
-- 
2.43.0

