B = "bounded: "
CLAIMED = {
    "C01": ("proof", "_combine, Config.__init__, Config.combine, get_last_value, parse_infile_config, parse_cmd_config proved; chains of files and get_config_many bounded"),
    "C02": ("proof", "_resolve_enable_disable_all proved; whole programs bounded"),
    "C03": ("exploration", B + "generated trees of files with in-file settings"),
    "C04": ("proof", "classification, relative paths, loading of local, packaged and remote files, dispatch and load_toml_file proved; chains of files bounded"),
    "C05": ("proof", "reading, writing, http_get and _load_external_config_file proved over every cache, clock and answer; real files bounded"),
    "C06": ("proof", "add_enabled, Config.__init__, Config.combine (attribution), pylint_to_problem and flake8_to_problem proved; whole programs bounded"),
    "C07": ("exploration", B + "generated TOML documents"),
    "C08": ("proof", "fill_in_val, apply_option_set, Config._translate proved; parsing of option sets and to_immutable bounded"),
    "C09": ("proof", "_ignore_infile, resolve_ignore_infile_config, parse_infile_config proved; how the sources are put together (get_config_many) bounded"),
    "C10": ("proof", "parse_option, safe_from_name, _convert proved; whole programs bounded"),
    "L01": ("proof", "apply_overrides proved; pipeline bounded"),
    "L02": ("proof", "the tweaks' keep/reword functions and apply_tweaks proved; regexes and whole programs bounded"),
    "L03": ("proof", "is_pylint_out_of_file_problem, find_file_or_dir, sort proved; sorting key and whole programs bounded"),
    "L04": ("proof", "process_results proved; subprocess bounded"),
    "L05": ("proof", "flake8_to_problem, pylint_to_problem, get_proper_path, process_results proved; whole programs bounded"),
    "L06": ("exploration", B + "generated files and trees"),
    "L07": ("proof", "lint, lint_many proved; whole programs bounded"),
    "T01": ("proof", "Translation.translate, translate_extracts, linting.translate proved; whole programs bounded"),
    "A01": ("proof", "get_const_value_rec, get_const_value, is_number, is_integer, is_float proved; that astroid builds the tree of the source bounded"),
    "A02": ("exploration", B + "generated pairs of conditions"),
    "A03": ("proof", "convert_condition_to_z3_expression proved for integer conditions of the accepted shape; which conditions are accepted (initialize_variables) and the calls of the solver bounded"),
    "A04": ("exploration", B + "generated programs"),
    "V01": ("proof", "_fully_released_versions, get_versions, reading and writing of saved versions, get_latest_version, is_update_waiting, check_for_updates proved; histories and arbitrary documents of the index bounded"),
    "E01": ("proof", "get_message_explanations, get_explanations, _load_updated_explanations, update_explanations, _thread_update_explanations proved; whole programs and warnings bounded"),
}
NOT_APPLICABLE = {}
