"""Single source of properties.jsonl and MANIFEST.json (run: python tools/props.py)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": state}]
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


C, L = "edulint/config/", "edulint/linting/"

p("C01", "Configuration layers override each other in the documented order",
  "For every combination of option settings in the base configuration chain, the configuration file, the in-file comments and the command line, the effective value of a single-valued option is the last one given in that order (and the documented default when nobody gives one). "
  "The effective value of an accumulating option (the pylint and flake8 arguments) is the concatenation of everything given, in that order, nothing lost, duplicated or reordered. "
  "Setting one option never changes the effective value of another. The configuration file itself is the last one named (on the command line, else in the file, else the nearest one in or above the folder of the checked file, else the default). "
  "Option groups and translations of messages declared by a configuration file replace those of the same name of the files it is based on, and a language file those of the configuration file.",
  ["inputs", "configurations"], "all lists of option settings per layer, any length, any repetition, any mix of options",
  "Tests merge a handful of two- or three-element lists; the merge keeps positions in a mutable index that any longer history of repeated options exercises differently.",
  [C + "config.py", "edulint/option_parses.py"],
  [("merge of argument lists", C + "config.py:Config._combine"), ("layering of two configurations", C + "config.py:Config.combine"), ("defaults and final values", C + "config.py:Config.to_immutable"), ("last value lookup", C + "config.py:Config.get_last_value"), ("order of layers", C + "config.py:get_config_many")],
  observe="edulint.check_code(...)[0] (the configurations used), --json output")

p("C02", "Enabling or disabling everything never damages other pylint arguments",
  "Of the accumulated pylint arguments only the last 'enable all' or 'disable all' is kept, and exactly the earlier enabling (respectively disabling) arguments it supersedes are dropped. "
  "Every other argument reaches pylint verbatim - same letter case, same relative order, none added.",
  ["inputs", "configurations"], "all lists of pylint argument strings",
  "Tests check about ten short argument lists, all in lower case.",
  [C + "config.py"], [("resolution of all/none arguments", C + "config.py:Config._resolve_enable_disable_all"), ("use", C + "config.py:Config.to_immutable")],
  observe="the pylint option of the configurations returned by edulint.check_code")

p("C03", "Every checked file is linted exactly once, under its own configuration",
  "Whatever mixture of files and directories is given and whatever in-file configurations they contain, each Python file given or found belongs to exactly one group of files that are linted together. "
  "The configuration of that group equals the configuration the file would get if it were checked alone, and files that are not Python files bring in no configuration.",
  ["inputs", "configurations"], "all directory trees, all in-file configurations, all command lines",
  "Tests use one directory with a few files; grouping merges groups across recursion levels keyed by configuration equality, which only shows with many distinct trees.",
  [C + "config.py"], [("grouping of files", C + "config.py:_parse_infile_configs"), ("assembly per group", C + "config.py:get_config_many"), ("partition", C + "config.py:_partition")],
  observe="edulint.check_code(...)[0]: pairs of file lists and configurations")

p("C04", "A configuration source is only accessed the way its name and the policy allow",
  "A configuration name starting with http:// or https:// is only ever fetched remotely, a name made of letters, digits, dashes and underscores only ever names a packaged configuration, and any other name only ever a local file. "
  "When remote sources (respectively arbitrary local files) are disallowed no remote request is made (respectively no such file is opened), for any name and however the name is reached. "
  "A relative local name is resolved against the directory of the file that mentions it and an absolute, packaged or remote name is never changed.",
  ["inputs", "configurations"], "all configuration names, all policies, all referring files",
  "Tests try a few dozen names; the guarantee is a statement about every string.",
  [C + "file_config.py"], [("classification", C + "file_config.py:get_config_type"), ("dispatch", C + "file_config.py:_load_file_from_uri"), ("local access", C + "file_config.py:_load_local_config_file"), ("remote access", C + "file_config.py:_load_external_config_file"), ("relative paths", C + "file_config.py:get_path_relative_to")])

p("C05", "Remote configurations are cached: fresh copy, then network, then old copy",
  "A remote configuration is taken from a cached copy younger than five minutes without any network request; otherwise it is requested once, and a successful answer is returned and stored under a name that depends on the address only. "
  "If the request fails in any way, a copy younger than the offline limit is used, and if there is none the failure is reported as a missing configuration file. "
  "A missing, undecodable or unreadable cache entry behaves as no entry and never produces wrong content or another failure.",
  ["inputs", "fault_sequences", "histories"], "all addresses, cache contents, ages, network outcomes and storage failures",
  "Tests need the network or a real cache; the order of the three sources under failures is not exercised.",
  [C + "file_config.py"], [("source priority", C + "file_config.py:CachedHTTPGet.http_get"), ("reading the cache", C + "file_config.py:CachedHTTPGet._read_version_from_disk"), ("writing the cache", C + "file_config.py:CachedHTTPGet._write_version_to_disk")],
  state="cache folder: content file and metadata file per address")

p("C06", "A problem is attributed to the configuration source that enabled it",
  "Whenever a configuration layer or an option group enables a message by name or identifier through the enabling arguments of pylint or flake8, the message is attributed to that layer, and the last layer to enable it wins over earlier layers and over option groups. "
  "Reported problems carry the attribution of their message identifier or, failing that, of their symbolic name. "
  "Messages nobody enabled carry none.",
  ["inputs", "configurations"], "all enabling arguments in all layers and groups",
  "Tests check single enabling arguments; attribution is a fold over all layers, groups and comma separated lists.",
  [C + "config.py", C + "utils.py", L + "linting.py"], [("extraction", C + "utils.py:add_enabled"), ("per layer", C + "config.py:Config.__init__"), ("merge", C + "config.py:Config.combine, Config.to_immutable"), ("attachment", L + "linting.py:flake8_to_problem, pylint_to_problem")])

p("C07", "Malformed configuration values are diagnosed and skipped, never fatal",
  "Every configuration file that is valid TOML - whatever the types of its values - is processed without a crash: a value of an unusable type is reported as a warning and skipped, and all the usable settings of the file keep their effect. "
  "A file that cannot be found or is not valid TOML is reported, and only the checked files relying on it are affected.",
  ["inputs", "configurations"], "all TOML documents",
  "Tests feed a few hand-written documents with well-typed values.",
  [C + "config.py", C + "option_sets.py", C + "language_translations.py", C + "utils.py"], [("values to text", C + "utils.py:config_file_val_to_str"), ("file", C + "config.py:parse_config_file"), ("groups", C + "option_sets.py:parse_option_sets"), ("translations", C + "language_translations.py:parse_lang_translations")])

p("C08", "Option groups expand in place and in order",
  "Setting a group (or an option for which the configuration file declares an expansion) has exactly the effect of giving the linter arguments of that group right after the setting, for each group in the order listed. "
  "Unknown groups are skipped with a warning and change nothing else, and arguments not coming from a group keep their order relative to each other.",
  ["inputs", "configurations"], "all groups and all lists of settings",
  "Tests expand one or two groups.",
  [C + "config.py", C + "option_sets.py"], [("expansion", C + "config.py:Config._translate"), ("declaration", C + "option_sets.py:parse_option_sets")])

p("C09", "In-file configuration is ignored exactly when it was asked for",
  "If the command line asks to ignore in-file configuration, the result does not depend on any configuration comment of the checked files; if the in-file configuration itself asks for it, only that request survives of the in-file settings. "
  "If the configuration file asks for it, no in-file setting is applied. Otherwise in-file settings are always applied.",
  ["inputs", "configurations"], "all combinations of in-file, configuration file and command line settings",
  "Tests cover single combinations of a three-way interaction.",
  [C + "config.py"], [("decision", C + "config.py:_ignore_infile"), ("in-file", C + "config.py:resolve_ignore_infile_config"), ("command line", C + "config.py:_parse_infile_configs, get_config_many")])

p("C10", "Options are recognised and converted uniformly; bad ones are skipped",
  "Every option setting is split at its first equals sign, recognised by its name (in any letter case, including the documented alias) and converted according to the declared type of the option. "
  "A setting with an unknown name, a missing required value or an unwanted value produces exactly one warning and is skipped; all the others survive in their original order.",
  ["inputs", "configurations"], "all lists of option strings",
  "Tests check individual strings.",
  [C + "config.py", "edulint/options.py", "edulint/option_parses.py"], [("split", C + "config.py:parse_args"), ("validation", C + "config.py:parse_option"), ("names", "edulint/options.py:Option.safe_from_name"), ("conversion", "edulint/option_parses.py:Type")])

p("L01", "A problem is suppressed exactly when an overriding one is on the same line",
  "A problem found by the linters is left out of the result because of another problem if and only if the same line of the same file has a problem whose code is declared to override it. "
  "Suppression does not depend on the order of the problems, on other lines or files, or on whether the overriding problem is itself suppressed, and the surviving problems are unchanged and keep their order.",
  ["inputs"], "all lists of problems and all override tables",
  "Tests have a few lists of two or three problems.",
  [L + "linting.py", L + "overrides.py"], [("suppression", L + "linting.py:apply_overrides")])

p("L02", "Tweaks filter and reword only the messages they are declared for",
  "Each declared adjustment drops a problem exactly when its rule says so, looking only at the options it declares, and rewords the text of the survivors as declared; for example one-character names are accepted only if listed, and every accepted or reported name is the one in the message. "
  "All other problems pass through unchanged and in order.",
  ["inputs", "configurations"], "all problems and configurations",
  "Tests use a few messages.",
  [L + "linting.py", L + "tweakers.py"], [("application", L + "linting.py:apply_tweaks"), ("rules", L + "tweakers.py:disallowed_name_keep, unused_import_keep, superfluous_parens_keep, redefined_builtin_keep, no_repeated_op_keep")])

p("L03", "Results are a complete list in a canonical order",
  "The reported problems are exactly the collected ones, ordered by the position of the argument their file belongs to (problems outside any file first), then by path, line and column. "
  "Every path accepted on the command line is handled, whatever its spelling.",
  ["inputs"], "all lists of problems and all argument lists",
  "Tests sort a few problems.",
  [L + "linting.py"], [("ordering", L + "linting.py:sort"), ("path matching", L + "linting.py:pylint_to_problem, get_proper_path")])

p("L04", "A failing linter is never mistaken for clean code",
  "If a linter ends with a failure status, is killed or prints something that is not its result format, the check reports a failure (exit status 2) instead of fewer problems. "
  "Exit status 0 means that no problem was reported and 1 that at least one was; whatever a linter does, the standard streams are restored.",
  ["inputs", "fault_sequences"], "all exit codes, outputs and error outputs of the linters",
  "Tests run real linters that succeed.",
  [L + "linting.py", "edulint/edulint.py"], [("results", L + "linting.py:process_results"), ("running", L + "linting.py:lint_flake8, lint_pylint"), ("exit status", "edulint/edulint.py:check_and_print, _check_code")])

p("L05", "Linter reports are converted without loss or distortion",
  "Every problem a linter reports becomes exactly one problem in the result with the same file, line, column, code, text and (where reported) end position and symbol, in the order reported. "
  "No raw report is dropped, duplicated or mixed up with another one.",
  ["inputs"], "all linter outputs in the documented format",
  "Tests convert a few recorded reports.",
  [L + "linting.py"], [("conversion", L + "linting.py:flake8_to_problem, pylint_to_problem"), ("collection", L + "linting.py:process_results, lint, lint_many")])

p("L06", "Every forbidden magic comment is reported, at its place, and nothing else",
  "When in-file suppressions are to be reported for a linter, every line of every checked Python file with a suppression comment of that linter is reported once per matching comment form, with its line and column, and no other line is. "
  "Files are found recursively and each once.",
  ["inputs", "configurations"], "all file contents and trees",
  "Tests check one file per linter.",
  [L + "nonparsing_checkers.py", L + "linting.py"], [("scan", L + "nonparsing_checkers.py:report_infile_config"), ("files", L + "nonparsing_checkers.py:to_file_paths")])

p("L07", "The result of a check is the composition of its stages over all groups",
  "For every group of files, the result is what the three linters report (flake8 only when not turned off), with overriding applied first and tweaks second. "
  "Results of all groups are concatenated and translated with the translations of their own group, nothing is dropped in between.",
  ["inputs", "configurations"], "all groups, configurations and linter results",
  "Tests observe end results for single files.",
  [L + "linting.py"], [("one group", L + "linting.py:lint"), ("all groups", L + "linting.py:lint_many"), ("translation", L + "linting.py:translate")])

p("T01", "Translations replace only the text and keep the extracted parts",
  "A problem whose code (or, failing that, symbolic name) has a translation gets the translated template filled with the parts extracted from its original text, translated where a translation of the part is declared; if the text does not match the known form the template is used. "
  "A problem without a translation keeps its text, no other attribute ever changes, and no translation can make the check fail.",
  ["inputs", "configurations"], "all problems, translation tables and texts",
  "Tests translate a few messages.",
  [C + "language_translations.py", L + "linting.py"], [("templates", C + "language_translations.py:Translation.translate, translate_extracts"), ("lookup", L + "linting.py:translate")])

p("A01", "Constant folding agrees with Python",
  "Whenever the analyses compute a value for a constant expression, it is the value Python computes for it, and when evaluation would fail they give up quietly instead of crashing. "
  "Hence an expression is called a number, an integer or a float only if it is one.",
  ["programs"], "all constant expressions",
  "Tests include a handful of literals.",
  [L + "analyses/utils.py"], [("evaluation", L + "analyses/utils.py:get_const_value_rec, get_const_value"), ("classification", L + "analyses/utils.py:is_number, is_integer, is_float")])

p("A02", "Two conditions are called negations of each other only if they are",
  "Whenever the analyses accept one condition as the negation of another, the two have opposite truth values under every assignment of integers to their variables. "
  "Conditions are compared by meaning of their operators, never by the number of operators or names alone.",
  ["programs"], "all pairs of conditions built from names, constants, comparisons, and/or/not and arithmetic",
  "Tests have about thirty pairs.",
  [L + "analyses/utils.py"], [("negation", L + "analyses/utils.py:is_negation")])

p("A03", "The logical encoding of conditions agrees with Python",
  "Whenever a condition over integers without rounding (no floats) is encoded for the solver, the encoding is true exactly for the assignments for which Python evaluates the condition to true. "
  "Hence conditions called equivalent, implied, always true or always false are so in Python; expressions that cannot be encoded faithfully are not encoded.",
  ["programs"], "all conditions over integer variables",
  "Tests have some dozens of conditions; the solver's integer division and remainder differ from Python's exactly in cases tests leave out.",
  [L + "analyses/z3_analysis.py"], [("encoding", L + "analyses/z3_analysis.py:convert_condition_to_z3_expression"), ("implication", L + "analyses/z3_analysis.py:implies and related")])

p("A04", "Control-flow graphs are consistent and follow every normal execution",
  "For every program made of assignments, expressions, conditionals, loops, with blocks, exception handlers with else (no finally), functions, classes and jumps, the successor and predecessor relations of its control-flow graph are inverse to each other, every statement has exactly one place in one block, and no statement that can be reached is called unreachable. "
  "Every execution in which no exception is raised follows the edges of the graph.",
  ["programs"], "all programs of these constructs", "Tests draw a few programs.",
  [L + "analyses/cfg/graph.py", L + "analyses/cfg/visitor.py"], [("edges", L + "analyses/cfg/graph.py:CFGEdge.__init__, CFGBlock, CFGLoc"), ("construction", L + "analyses/cfg/visitor.py:CFGVisitor")])

p("V01", "Update notification: rate-limited and only for a different version",
  "The package index is asked at most once per time-to-live however often versions are checked and whether or not the request succeeds, and the latest version is the greatest (by major, minor and micro number) of the versions that have files and none withdrawn. "
  "An update is announced only if both the installed and the latest version are known and differ.",
  ["inputs", "histories", "fault_sequences"], "all index answers, histories of checks and failures",
  "Tests cannot reach the index.",
  ["edulint/versions/version_checker.py", "edulint/versions/pypi_helper.py"], [("rate limit", "edulint/versions/version_checker.py:PackageInfoManager.get_latest_version"), ("decision", "edulint/versions/version_checker.py:PackageInfoManager.is_update_waiting"), ("filter", "edulint/versions/pypi_helper.py:_fully_released_versions, _only_last_patch_of_each_minor")])

p("E01", "Explanations: exactly those requested that exist, newest readable source first",
  "Asking for explanations returns exactly the requested identifiers that have one, each with its own explanation, with a warning for each other one; asking for all returns all. "
  "A downloaded newer set of explanations is used if it is readable and the packaged one otherwise; nothing is downloaded when updates are disabled, and no more often than every ten minutes.",
  ["inputs", "fault_sequences"], "all lists of identifiers, all states of the downloaded file",
  "Tests ask for one identifier.",
  ["edulint/edulint.py", "edulint/explanations.py"], [("lookup", "edulint/edulint.py:get_message_explanations"), ("sources", "edulint/explanations.py:get_explanations, _load_updated_explanations")])

from status import CLAIMED, NOT_APPLICABLE  # noqa: E402

TECH = "contract-based deductive verification of the real source (pyded VCs discharged by z3/cvc5)"


def main():
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks = []
    for x in P:
        if x["id"] in CLAIMED:
            level, note = CLAIMED[x["id"]]
            checks.append({"property": x["id"], "quick_cmd": f"./check {x['id']}", "thorough_cmd": f"./check {x['id']} --tier thorough", "technique": TECH, "level": level, "level_note": note})
    na = [{"property": x["id"], "reason": NOT_APPLICABLE.get(x["id"], "no check built yet")} for x in P if x["id"] not in CLAIMED]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
