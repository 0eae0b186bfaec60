"""Which contracts and which replay driver decide which property."""

ASSUME_COMMON = [
    "Verus, its encoding of Rust and the Z3 release it ships are correct; vstd's specifications of the standard library hold",
    "the extraction (tools/vextract.py) drops only attributes and comments and makes only the token rewrites listed in the evidence",
    "executable integers are machine integers (overflow is an obligation); allocation does not fail",
]

PROPS = {}


def prop(id, units, driver, explain, assumptions=(), level="proof", **kw):
    PROPS[id] = dict(level=level, units=units, driver=driver, explain=explain, assumptions=list(assumptions), **kw)


def lab(file, names):
    return [f"{file}:{n}" for n in names.split()]


# ---------------------------------------------------------------- line endings
LE = "crates/line_ending/src/lib.rs"
WLE = "crates/workspace/src/settings/line_ending.rs"
prop("L01", {"line_ending": lab(LE, "normalize normalize_ref FINDER infer")}, "d_line_ending",
     "normalize / normalize_ref against the mathematical function that removes the CR of every CRLF.",
     ["memchr's substring finder returns the first occurrence (assumed contract; checked by the bounded replay)"])
prop("L02", {"line_ending": lab(WLE, "LineEnding::finalize") + lab(LE, "infer_first")}, "d_line_ending",
     "finalize and infer_first against the first line ending of the text, over all texts and settings.",
     ["memchr::memchr returns the first position of the byte (assumed contract; checked by the bounded replay)",
      "the Windows arm of the native setting is not analysed (the checks run on Linux)"])

# ---------------------------------------------------------------- settings
S = "crates/settings/src/"
prop("S01", {"settings": lab(S + "indent_width.rs", "IndentWidth::value IndentWidth<Default>::default IndentWidth<TryFrom:u8>::try_from "
                             "IndentWidth<TryFrom:usize>::try_from IndentWidth<TryFrom:NonZeroU8>::try_from u8<From:IndentWidth>::from NonZeroU8<From:IndentWidth>::from")
             + lab(S + "line_width.rs", "LineWidth::value LineWidth<Default>::default LineWidth<TryFrom:u16>::try_from "
                   "LineWidth<TryFrom:NonZeroU16>::try_from u16<From:LineWidth>::from NonZeroU16<From:LineWidth>::from")}, "d_settings",
     "every conversion into and out of the two width types accepts exactly 1..=24 / 1..=320 and keeps the value; deserialisation from TOML is replayed only.",
     ["std's NonZero integers: try_from fails only on zero and keeps the value",
      "serde's derive and hand-written Deserialize glue are not under contract (bounded replay through toml)"])
prop("S02", {"settings": lab(S + "sorted_strings.rs", "SortedStrings::new SortedStrings::as_slice SortedStrings::contains")
             + lab(S + "skip.rs", "Skip::contains") + lab(S + "table.rs", "Table::new Table::as_slice Table::contains Table::merge")}, "d_settings",
     "constructors establish sortedness and keep the multiset of names; lookup returns membership under sortedness; merge is the multiset union.",
     ["sort_unstable sorts and permutes; binary_search_by finds a match of a monotone comparison; strings compare lexicographically by character; Arc::from(Vec) and to_owned keep the elements",
      "the serde glue and Display are not under contract (bounded replay)"])
prop("S03", {"settings": lab(S + "assignment_style.rs", "AssignmentStyle<FromStr>::from_str")
             + lab(S + "indent_style.rs", "IndentStyle<FromStr>::from_str IndentStyle::is_tab IndentStyle::is_space")
             + lab(S + "persistent_line_breaks.rs", "PersistentLineBreaks<FromStr>::from_str PersistentLineBreaks::is_respect PersistentLineBreaks::is_ignore")}, "d_settings",
     "each keyword parses to its own variant and nothing else parses.",
     ["two str values with the same characters are equal", "serde's derived keyword parsing and Display are not under contract (bounded replay)"])

# ---------------------------------------------------------------- comments
D = "crates/comments/src/directive.rs"
prop("D01", {"comments": lab(D, "parse_comment_directive trim_comment parse_format_directive")}, "d_comments",
     "parse_comment_directive against a declarative grammar of directives, over all strings.",
     ["std: strip_prefix, trim_start_matches, trim, trim_start, split_once for character and string patterns (assumed contracts)"])
prop("D02", {"comments": lab(D, "parse_special_skip_file trim_comment")}, "d_comments",
     "parse_special_skip_file returns SkipFile exactly when the payload of a comment starts with `Generated by`.",
     ["std: strip_prefix, trim_start_matches, trim_start, starts_with (assumed contracts)"])

# ---------------------------------------------------------------- workspace
R = "crates/workspace/src/resolve.rs"
PATHS = "std's Path: components, ordering, ancestors, parent and the AsRef<Path> conversions (assumed contracts)"
prop("W01", {"resolve": lab(R, "PathItem::path PathItem::value PathResolver::new PathResolver::fallback PathResolver::add PathResolver::remove "
                            "PathResolver::items PathResolver::len PathResolver::is_empty PathResolver::clear")}, "d_workspace",
     "the resolver's list is the sorted, duplicate-free form of a map from paths to values: add is insert-or-replace, remove is delete, over every history (type invariant).", [PATHS])
prop("W02", {"resolve": lab(R, "PathResolver::resolve PathResolver::resolve_or_fallback PathResolver::add PathResolver::new")}, "d_workspace",
     "resolve returns the value of the longest stored prefix of the path, for every stored set and path; `matches` and `matches_mut` are replayed only.", [PATHS])
FP = "crates/workspace/src/file_patterns.rs"
IGN = "the ignore crate's gitignore matcher: one glob line against one path (assumed contract; the replay links the real crate)"
prop("W03", {"file_patterns": lab(FP, "FilePatterns::try_from_iter FilePatterns::matched FilePatterns::matched_path_or_any_parents "
                                  "DefaultFilePatterns::try_from_iter DefaultFilePatterns::matched DefaultFilePatterns::matched_path_or_any_parents")
             + lab("crates/workspace/src/settings/exclude_patterns.rs", "ExcludePatterns::try_from_iter")}, "d_workspace",
     "a matcher holds exactly the given lines in order under the given root; a negated match counts as no match; the walk over parents finds the closest match.", [IGN, PATHS], seconds=12)
prop("W04", {"file_patterns": lab(FP, "DefaultFilePatterns::try_from_iter DefaultFilePatterns::matched DefaultFilePatterns::matched_path_or_any_parents")
             + lab("crates/workspace/src/settings/default_exclude_patterns.rs", "DEFAULT_EXCLUDE_PATTERN_NAMES DEFAULT_EXCLUDE_PATTERNS")
             + lab("crates/workspace/src/settings/default_include_patterns.rs", "DEFAULT_INCLUDE_PATTERN_NAMES DEFAULT_INCLUDE_PATTERNS")}, "d_workspace",
     "the default patterns take exactly the documented names, for every path and depth: the lists are of patterns `**/NAME` and `**/NAME/` only, whose meaning is written out (`*`, `[ab]`, anything else itself), building their matchers cannot fail, and the walk over parents finds every directory a path lies in.",
     [IGN + "; for patterns `**/NAME` and `**/NAME/` without other special characters the glob's meaning is written out (assumed; the replay compares it with the crate: all short extensions, one edit around each name, random paths)",
      PATHS, "names that are not UTF-8 are not covered"])
T = "crates/workspace/src/toml_options.rs"
WS = "crates/workspace/src/settings.rs"
DT = "crates/workspace/src/settings/default_table.rs"
prop("W05", {"toml_options": lab(T, "TomlOptions::into_settings") + lab(WS, "FormatSettings<Default>::default FormatSettings::to_format_options")
             + lab(DT, "DEFAULT_TABLE_NAMES DEFAULT_TABLE")}, "d_workspace",
     "into_settings against a field-by-field table of defaults and overrides for every combination of options; to_format_options carries every field to the formatter.",
     ["derived Default impls of the settings types and of FormatTomlOptions (external stand-ins)", "Table::new / merge by the contracts proved for S02", "serde's derive (unknown fields, kebab case) is bounded replay"])
CX = "crates/air_r_formatter/src/context.rs"
FO = "indent_style indent_width line_ending line_width persistent_line_breaks assignment_style skip table".split()
prop("S04", {"toml_options": lab(CX, "RFormatOptions::new RFormatOptions::persistent_line_breaks RFormatOptions::assignment_style RFormatOptions::skip RFormatOptions::table "
                                 + " ".join(f"RFormatOptions::with_{f} RFormatOptions::set_{f}" for f in FO)
                                 + " " + " ".join(f"RFormatOptions<FormatOptions>::{f}" for f in FO[:4]))
             + lab("crates/settings/src/indent_style.rs", "IndentStyle<From:IndentStyle>::from") + lab("crates/settings/src/line_ending.rs", "LineEnding<From:LineEnding>::from")
             + lab("crates/settings/src/indent_width.rs", "IndentWidth<From:IndentWidth>::from") + lab("crates/settings/src/line_width.rs", "LineWidth<From:LineWidth>::from")
             + lab(WS, "FormatSettings::to_format_options")}, "d_workspace",
     "every setter changes its own field to the given value and no other; the conversions to the printer's types keep the value and never fail.",
     ["biome_formatter's IndentWidth/LineWidth accept 0..=24 / 1..=320 (stand-in crate; the real one is not available offline)", "as_print_options is replayed only"])
DS = "crates/workspace/src/discovery.rs"
TM = "crates/workspace/src/toml.rs"
FSYS = "the file system as a fixed predicate on paths (is_file) for the duration of a call"
prop("W06", {"discover_settings": lab(TM, "find_air_toml_in_directory find_air_toml is_air_toml")}, "d_workspace",
     "find_air_toml returns the configuration file of the closest ancestor that has one, air.toml before .air.toml.", [PATHS, FSYS])
prop("W07", {"discovery": lab(DS, "any_exclude_matched_path any_exclude_matched_path_or_any_parents any_include_matched_path FilesVisitor::visit_format FilesVisitor<ParallelVisitor>::visit"),
             "discover_settings": lab(DS, "parse_settings discover_settings")}, "d_workspace",
     "visit decides each entry by the exclude and include rules of its own settings, prunes exactly the excluded entries, and records exactly the found files and errors; discover_settings finds exactly the closest configurations of the given paths.",
     ["the ignore crate's parallel walk visits every unpruned entry once (replayed on real directory trees)", "PathResolver::resolve_or_fallback by the contract proved for W02", FSYS, PATHS])
prop("W08", {"discovery": lab(DS, "any_exclude_matched_path_or_any_parents any_include_matched_path")
             + lab("crates/lsp/src/file_patterns.rs", "is_document_excluded_from_formatting is_document_excluded")}, "d_workspace",
     "the server leaves a document alone exactly when it is excluded, or neither included by name nor opened as language `r`.", [IGN, PATHS])
prop("G01", {"format_source": lab("crates/workspace/src/format.rs", "format_source_with_parse format_source")}, "d_workspace",
     "for every behaviour of parser, formatter and printer: a parse error is an error, Unchanged means the formatter's text equals the source, Changed carries the formatter's text and it differs.",
     ["air_r_parser::parse, air_r_formatter::format_node and the printer are arbitrary functions (the real ones need crates that are not available offline)"])

# ---------------------------------------------------------------- edits
TE = "crates/aether_lsp_utils/src/text_edit.rs"
SIZES = "biome_text_size: 32-bit offsets and ranges with start <= end (stand-in; the crate is not available offline)"
SLICES = "std: stable sort, slice iterators, zip / skip / rev; itertools: dedup_by, coalesce, merge_by; String::replace_range (assumed contracts; the replay runs the real ones)"
BUILD = ("check_disjoint check_disjoint_and_sort assert_disjoint_or_equal coalesce_indels Indel::insert Indel::delete Indel::replace Indel::apply "
         "TextEditBuilder::is_empty TextEditBuilder::indel TextEditBuilder::replace TextEditBuilder::delete TextEditBuilder::insert TextEditBuilder::finish "
         "TextEdit::builder TextEdit::insert TextEdit::delete TextEdit::replace TextEdit::len TextEdit::is_empty TextEdit::apply")
prop("E01", {"text_edit": lab(TE, BUILD)}, "d_lsp",
     "finish yields a sorted, disjoint list equivalent (for every text) to the given edits made at once; apply from the back is proved equal to the simultaneous replacement.",
     [SIZES, SLICES, "texts and insertions together stay below 4 GiB (the offsets' width)", "that overlapping edits are refused at run time is proved as a precondition of the assertion, and replayed"])
prop("E02", {"text_edit": lab(TE, "TextEdit::union TextEdit::apply_to_offset TextEditBuilder::invalidates_offset check_disjoint")}, "d_lsp",
     "union succeeds exactly when the merged list is disjoint or equal and then is the merge without repeated deletions; apply_to_offset against the sum of the length changes in front of the offset.",
     [SIZES, SLICES])
prop("E03", {"text_edit": lab("crates/aether_lsp_utils/src/diff.rs", "diff") + lab(TE, BUILD)}, "d_lsp",
     "for every list of chunks that spells both texts, diff's edits are sorted, disjoint, fit the first text, and applied to it give the second.",
     [SIZES, SLICES, "dissimilar::diff's chunks spell the first text without insertions and the second without deletions (assumed contract; stand-in in the replay)", "the first text is below 4 GiB"], seconds=12)
FPR = "crates/aether_lsp_utils/src/proto/from_proto.rs"
LIX = "biome_line_index: lines end at line feeds, an offset is the start of the line plus the column, wide columns depend on the line's text in front of them only (assumed contract; stand-in)"
prop("E04", {"proto": lab(FPR, "line_col_from_position offset_from_position text_range apply_text_changes apply_text_edits")}, "d_lsp",
     "apply_text_changes against the sequential meaning of the notification (every position read in the text as it is then, although the line index is only rebuilt when stale); apply_text_edits against the simultaneous meaning, edits at one position in array order.",
     [SIZES, LIX, "lsp-types' records (stand-in)", "normalize by the contract proved for L01", "documents stay below 4 GiB", "positions sent by the client lie in their lines and on character boundaries"], seconds=12)
TPR = "crates/aether_lsp_utils/src/proto/to_proto.rs"
prop("E05", {"proto": lab(TPR, "position_from_line_col position_from_offset range text_edit text_edit_vec doc_edit_vec replace_range_edit replace_all_edit")}, "d_lsp",
     "the edits sent are sorted, disjoint and, made at once on the client's text (the server's text in the client's line endings), give the server's new text in the client's line endings; the same edits as changes, one after the other, do too.",
     [SIZES, LIX, "lsp-types' records (stand-in)", "str::replace(\"\\n\", \"\\r\\n\") puts CRLF for every line feed (assumed contract)", "TextEdit and diff by the contracts proved for E01 and E03", "both texts stay below 4 GiB"], seconds=12)
LS = "crates/lsp/src/"
prop("K01", {"lsp_state": lab(LS + "documents.rs", "Document::new Document::on_did_change")
             + lab(LS + "state.rs", "WorldState::get_document WorldState::get_document_mut WorldState::get_document_or_error WorldState::get_document_mut_or_error")
             + lab(LS + "handlers_state.rs", "did_change did_close")}, "d_lsp",
     "the client's text, changed at the positions it names in its own text, and the server's text after the same notification stay equal apart from CRs in front of LFs; index, tree, version and the other documents follow.",
     [SIZES, LIX, "lsp-types' records, url's Url and std's HashMap (stand-ins with assumed contracts)", "air_r_parser::parse is a function of the text (not available offline)", "apply_text_changes, infer and normalize by the contracts proved for E04, L02 and L01", "did_open (async) is replayed only: Document::new and HashMap::insert"], seconds=12)
W = LS + "workspaces.rs"
K03U = (lab(W, "WorkspaceSettingsResolver::from_workspace_folders WorkspaceSettingsResolver::open_workspace_folder WorkspaceSettingsResolver::close_workspace_folder WorkspaceSettingsResolver::settings_for_url "
               "WorkspaceSettingsResolver::settings_for_path WorkspaceSettingsResolver::url_to_path WorkspaceSettingsResolver::reload_workspaces_matched_by_url")
        + lab(LS + "main_loop.rs", "LspState::workspace_document_settings LspState::open_workspace_folder LspState::close_workspace_folder")
        + lab(LS + "handlers_state.rs", "did_change_workspace_folders did_change_watched_files")
        + lab(LS + "notifications/sync_file_settings.rs", "LspState::sync_file_settings FileFormatSettings::from_format_settings"))
V = LS + "settings_vsc.rs"
prop("K02", {"lsp_settings": lab(LS + "settings.rs", "DocumentSettings::merge") + lab(LS + "workspaces.rs", "WorkspaceSettings::settings WorkspaceSettings::to_format_options")
             + lab(V, "indent_width_from_vsc indent_width_from_usize indent_style_from_vsc GlobalSettings<From:VscGlobalSettings>::from DocumentSettings<From:VscDocumentSettings>::from "
                   "VscDocumentSettings::section_from_key VscGlobalSettings::section_from_key")
             + lab(LS + "handlers_state.rs", "did_change_formatting_options"),
             "lsp_workspaces": lab(LS + "notifications/sync_file_settings.rs", "LspState::sync_file_settings FileFormatSettings::from_format_settings")
             + lab(LS + "main_loop.rs", "LspState::workspace_document_settings")}, "d_lsp",
     "a configuration file's settings win, otherwise the client's indentation is put over the defaults; the conversions of the client's values are exact and all or nothing; a request's options are stored in that document only.",
     ["IndentWidth::try_from accepts 1..=24 (proved for S01)", "to_format_options and the setters by the contracts proved for W05 and S04", "which of the client's answers belongs to which document (update_config, async; serde_json) and the notification sent back are bounded replay over random histories"], seconds=12)
prop("K03", {"lsp_workspaces": K03U}, "d_lsp",
     "every notification about folders or configuration files takes the list of open folders to the list the notification means, for every number of folders and files; a document has the settings of the innermost open folder around it; the client is told only the settings of documents governed by a file.",
     ["PathResolver by the contracts proved for W01 and W02", "discover_settings is a function of the folder at the time of the call (what it finds: W07); the file system does not change while one notification is handled", "url's Url, Path::join/parent/starts_with/display and Option combinators of std (assumed contracts)",
      "that the client is told when it asked for it (a notification is sent at all) is replayed"], seconds=12)
prop("G02", {"lsp_format": lab(LS + "handlers_format.rs", "document_formatting")}, "d_lsp",
     "document_formatting for every document, settings, parser, formatter and printer: excluded or unparsable documents are left alone, otherwise the client's text becomes the formatted text in its own line endings (a notebook cell without the final one).",
     ["air_r_parser, air_r_formatter and the printer are arbitrary functions (not available offline); url's Url", "the documents of the server are well-formed (proved for K01)",
      "every other function called by the contracts proved for E05, G01, K01, K02, S04 and W08", "for a client text that mixes line endings the edits are replayed only"], seconds=12)

CLI = "crates/air/src/commands/"
SINGLE = "discovered paths are distinct, and no other program changes the files while air runs (content is a function of the path)"
prop("C01", {"cli": lab(CLI + "format/paths.rs", "format format_paths_write format_paths_check format_path write_path check_path")
             + lab(CLI + "format.rs", "format check_argument_consistency FormatMode::from_command") + lab("crates/air/src/status.rs", "ExitCode<From>::from")}, "d_air",
     "writing a file is an effect that needs permission, given in write mode only and only for a discovered file with exactly its formatted text; the exit status is a function of the outcome of every entry; the files named are those that would change.",
     [SINGLE, "std::fs reads and writes whole files (assumed contract); the walk of the ignore crate ends with the entries decided by W08; colored, clap, tracing (stand-ins); inform_changed prints each path it is given (replayed)",
      "format_source, to_format_options and PathResolver by the contracts proved for G01, W05, W01 and W02; discover_settings is a function of the paths (what it finds: W07)",
      "clap's parsing of the arguments, `run` and `main` are replayed with the real program only"], seconds=12)
prop("C02", {"cli": lab(CLI + "format/stdin.rs", "format format_stdin_write format_stdin_check format_stdin asis_stdin read_stdin is_stdin_formattable")
             + lab(CLI + "format.rs", "format check_argument_consistency FormatMode::from_command") + lab("crates/air/src/status.rs", "ExitCode<From>::from")}, "d_air",
     "printing is an effect that needs permission, given in write mode only and only for what standard input becomes: its formatted text, or itself when air leaves such a file alone.",
     ["std::io reads all of standard input and writes all of the bytes (assumed contract)", "the patterns depend on the path's components only; the patterns' decision by the contracts proved for W08",
      "format_source, to_format_options and PathResolver by the contracts proved for G01, W05, W01 and W02; discover_settings is a function of the paths (what it finds: W07)",
      "clap's parsing of the arguments, `run` and `main` are replayed with the real program only"], seconds=12)

P = "crates/air_r_parser/src/parse.rs"
TS = "crates/air_r_parser/src/treesitter.rs"
HANDLERS = ("RWalk::handle_root_enter RWalk::handle_value_enter RWalk::handle_value_leave RWalk::walk_next RWalk::walk RWalk::handle_enter RWalk::handle_leave "
            "RWalk::handle_parameters_enter RWalk::handle_parameters_leave RWalk::handle_parameter_enter RWalk::handle_parameter_leave "
            "RWalk::handle_if_statement_enter RWalk::handle_if_statement_leave RWalk::handle_braced_expressions_enter RWalk::handle_braced_expressions_leave "
            "RWalk::handle_call_like_enter RWalk::handle_call_like_leave RWalk::handle_arguments RWalk::handle_arguments_enter RWalk::handle_arguments_leave "
            "RWalk::handle_argument_enter RWalk::handle_argument_leave RWalk::handle_hole_before_close RWalk::handle_hole_before_comma "
            "RWalk::handle_integer_value_enter RWalk::handle_integer_value_leave RWalk::handle_complex_value_enter RWalk::handle_complex_value_leave "
            "RWalk::handle_string_value_enter RWalk::handle_string_value_leave RWalk::handle_string_content_enter RWalk::handle_string_content_leave RWalk::handle_comment_enter")
GRAM = "tree-sitter's tree of a text without syntax errors follows its grammar: known kinds, children in source order, only blanks and line ends between the leaves, a comment from `#` to the end of its line (assumed contract; not available offline)"
SINK = "biome_parser and biome_rowan build the tree that events and trivia spell (assumed contract; stand-in in the replay)"
LONG = "texts are below 4 GiB (the offsets' width)"
prop("R01", {"gaps": lab(P, "RParse::new RParse::push_event RParse::push_trivia RParse::start RParse::token RParse::finish RParse::drain RParse::is_whitespace RParse::derive_trivia "
                            "RWalk::new RWalk::handle_node_enter RWalk::handle_node_leave RWalk::handle_token RWalk::handle_comment_leave RWalk::handle_root_leave"),
             "walk": lab(P, HANDLERS + " parse_from_treesitter"), "preorder": lab(TS, "Preorder::new Preorder::peek Preorder::peek_field_name Preorder::skip_subtree Preorder<Iterator>::next")},
     "d_parser",
     "for every tree and text, the emitted tokens and pieces of trivia, in order, cover the text without gap or overlap; each piece is what the text has there; each comment is there once; pieces behind a token stop at the end of its line.",
     [GRAM, SINK, LONG, "biome_unicode_table's byte classes (assumed contract)"], seconds=30)
prop("R02", {"walk": lab(P, HANDLERS + " parse_from_treesitter") + lab(TS, "Node<NodeTypeExt>::syntax_kind Node<NodeTypeExt>::preorder"),
             "preorder": lab(TS, "Preorder::new Preorder::peek Preorder::peek_field_name Preorder::skip_subtree Preorder<Iterator>::next"),
             "node_kinds": lab(TS, "node_syntax_kind"),
             "gaps": lab(P, "RParse::new RParse::start RParse::token RParse::finish RParse::drain RWalk::handle_node_enter RWalk::handle_node_leave RWalk::handle_token")},
     "d_parser",
     "the events are a function `shape` of tree-sitter's tree, defined by recursion over it: same nodes, kinds and nesting, plus the lists, clauses, names and holes the syntax has and tree-sitter does not name.",
     [GRAM, SINK, LONG, "biome_unicode_table's byte classes (assumed contract)"], seconds=30)
prop("R03", {"parse_entry": lab(P, "Parse::new Parse::syntax Parse::into_result Parse::error Parse::into_error Parse::has_error parse parse_text build_tree"),
             "walk": lab(P, "parse_from_treesitter parse_failure")}, "d_parser",
     "parse fails exactly when tree-sitter reports an error; the tree is then one bogus token of the whole text, otherwise the tree R01 and R02 describe, and the accessors give back exactly that.",
     [GRAM, SINK, LONG, "tree-sitter's parser is a function of the text; tracing's spans do nothing"], seconds=30)

# ---------------------------------------------------------------- formatter
F = "crates/air_r_formatter/src/"
FA = F + "r/auxiliary/"
BX = FA + "binary_expression.rs"
TREE = "biome_rowan's trees: a node's slots, its parent, its lists (assumed contract; stand-in in the replay)"
PRINTER = "biome_formatter's builders and printer print what they are given (assumed contract by kind of element; stand-in in the replay)"
prop("T03", {"printing": lab(BX, "can_normalize_to_equal fmt_left_assignment_operator fmt_binary_assignment FormatRBinaryExpression<FormatNodeRule>::fmt_fields")}, "d_formatter",
     "the operator printed for every assignment, style and position: replaced exactly where the style asks for it and R's grammar takes the other operator, else the token itself; every other part of the assignment is printed unchanged.",
     [TREE, PRINTER], seconds=20)

def fields(names):
    return [f"{FA}{f}.rs:{t}<FormatNodeRule>::fmt_fields" for f, t in (x.split(":") for x in names.split())]
RULES = fields("break_expression:FormatRBreakExpression next_expression:FormatRNextExpression complex_value:FormatRComplexValue double_value:FormatRDoubleValue "
               "integer_value:FormatRIntegerValue dot_dot_i:FormatRDotDotI dots:FormatRDots true_expression:FormatRTrueExpression false_expression:FormatRFalseExpression "
               "inf_expression:FormatRInfExpression na_expression:FormatRNaExpression nan_expression:FormatRNanExpression null_expression:FormatRNullExpression "
               "identifier:FormatRIdentifier argument_name_clause:FormatRArgumentNameClause parameter_default:FormatRParameterDefault subset:FormatRSubset "
               "subset_2:FormatRSubset2 parameter:FormatRParameter namespace_expression:FormatRNamespaceExpression extract_expression:FormatRExtractExpression "
               "else_clause:FormatRElseClause repeat_statement:FormatRRepeatStatement while_statement:FormatRWhileStatement for_statement:FormatRForStatement "
               "parenthesized_expression:FormatRParenthesizedExpression unary_expression:FormatRUnaryExpression argument:FormatRArgument "
               "binary_expression:FormatRBinaryExpression call:FormatRCall parameters:FormatRParameters root:FormatRRoot if_statement:FormatRIfStatement "
               "braced_expressions:FormatRBracedExpressions function_definition:FormatRFunctionDefinition string_value:FormatRStringValue")
BODIES = (lab(F + "loop_body.rs", "FormatLoopBody<Format>::fmt") + lab(FA + "function_definition.rs", "FormatFunctionBody<Format>::fmt FormatFunction::fmt_with_options")
          + lab(FA + "if_statement.rs", "FormatIfBody<Format>::fmt"))
CALLS = (lab(FA + "call_arguments.rs", "RCallLikeArguments::l_token RCallLikeArguments::r_token RCallLikeArguments::items RCallLikeArguments::syntax RCallLikeArguments<Format>::fmt RCallLikeArguments::write_grouped_arguments is_hugging_call "
             "FormatAllArgsBrokenOut<Format>::fmt FormatCallArgumentHole<Format>::fmt FormatRCallArguments::fmt_call_like FormatRCallArguments<FormatRuleWithOptions>::with_options FormatRCallArguments<FormatNodeRule>::fmt_fields")
         + fields("subset_arguments:FormatRSubsetArguments subset_2_arguments:FormatRSubset2Arguments")
         + lab("crates/air_r_syntax/src/argument_ext.rs", "RArgument::is_hole") + lab("crates/air_r_syntax/src/call_ext.rs", "RCall::is_test_call RCall::is_titled_block_call"))
GROUPED = lab(FA + "call_arguments.rs", "FormatGroupedFirstArgument<Format>::fmt FormatGroupedLastArgument<Format>::fmt FormatGroupedArgument<Format>::fmt")
GROUPS = lab(FA + "call_arguments.rs", "braced_expressions_is_groupable argument_is_groupable should_group_first_argument should_group_last_argument arguments_grouped_layout")
LISTS = (lab(F + "joiner_ext.rs", "JoinNodesBuilderExt::new JoinNodesBuilderExt::entry JoinNodesBuilderExt::entry_no_separator JoinNodesBuilderExt::finish")
         + lab(F + "formatter_ext.rs", "Formatter<FormatterExt>::join_nodes_with_hardline_ext")
         + lab("crates/air_r_formatter/src/r/lists/expression_list.rs", "FormatRExpressionList<FormatRule>::fmt FormatRExpressionList<FormatRuleWithOptions>::with_options")
         + lab("crates/air_r_formatter/src/r/lists/parameter_list.rs", "FormatRParameterList<FormatRule>::fmt join_parameter_list"))
DANGLING = [f"{FA}{f}.rs:{t}<FormatNodeRule>::fmt_dangling_comments" for f, t in (("call_arguments", "FormatRCallArguments"), ("subset_arguments", "FormatRSubsetArguments"),
            ("subset_2_arguments", "FormatRSubset2Arguments"), ("parameters", "FormatRParameters"), ("braced_expressions", "FormatRBracedExpressions"))]
OPTIONS = (lab(FA + "else_clause.rs", "FormatRElseClause<FormatRuleWithOptions>::with_options") + lab(FA + "if_statement.rs", "FormatRIfStatement<FormatRuleWithOptions>::with_options")
           + lab(FA + "function_definition.rs", "FormatRFunctionDefinition<FormatRuleWithOptions>::with_options"))
ANY = [f"{F}r/any/{f}.rs:FormatAnyR{t}<FormatRule>::fmt" for f, t in (("argument_name", "ArgumentName"), ("expression", "Expression"), ("parameter_name", "ParameterName"), ("selector", "Selector"), ("value", "Value"))]
prop("T06", {"printing": DANGLING + ANY + OPTIONS + lab(BX, "FormatRBinaryExpression<FormatRuleWithOptions>::with_options") + RULES + BODIES + LISTS + CALLS + GROUPED + lab(FA + "argument.rs", "fmt_argument_fields") + lab(FA + "braced_expressions.rs", "fmt_curly_curly as_curly_curly braced_expressions_variant")
             + lab(BX, "fmt_binary_assignment fmt_binary_sticky fmt_binary fmt_binary_chain format_assignment_rhs as_chainable_binary_expression")
             + lab(F + "string_content.rs", "normalize_string_content_token FormatStringContentToken<Format>::fmt") + lab(F + "either.rs", "Either<Format>::fmt")
             + lab(FA + "call_arguments.rs", "FormatCallArgument::fmt_with_cache FormatCallArgument::will_break FormatCallArgument<Format>::fmt FormatCallArgumentHole::new FormatCallArgument::new"),
             "placement": lab(F + "comments.rs", "RCommentStyle<CommentStyle>::get_comment_kind RCommentStyle<CommentStyle>::place_comment handle_for_comment handle_while_comment handle_repeat_comment handle_function_comment handle_if_statement_comment "
                              "handle_else_clause_comment handle_call_comment handle_parenthesized_expression_comment handle_argument_name_clause_comment handle_argument_comment handle_hole_argument_comment "
                              "place_leading_or_dangling_alternative_comment place_leading_or_dangling_body_comment")},
     "d_formatter",
     "for every node, its rule prints each of its tokens and children once and in order, with nothing else but layout and the braces around unbraced bodies; tokens of strings with their line ends normalized; dangling comments of empty lists, parentheses and braces too. Every comment is put in front of or behind a node that its own rule prints, or into empty braces, and never replaced by another.",
     [TREE, PRINTER, "of the ways to print grouped arguments, which is printed depends on the document alone; a kept piece that failed to print fails again (assumed)"], seconds=25)
prop("T01", {"tables": lab(F + "call_arguments_table.rs", "build_table build_table_impl ColumnInfo::padding ColumnInfo::simple_padding ColumnInfo::decimal_padding ArgKind::width ArgKind::parse ArgKind::parse_unary ArgKind::parse_integer ArgKind::parse_decimal write_spaces FormatRCallArguments::fmt_table")},
     "d_formatter",
     "which arguments are cells and which follow the table, which of them start a row, how wide every column is (it covers each of its cells, and some cell needs all of it), what blanks stand around a cell (so that the points of numbers, and all commas, stand below each other), and what is printed: every cell and comma once, in order, a line end between rows and an empty line where the source has one.",
     [TREE, PRINTER, "what an argument that is no number prints on one line (parse_other) is biome_formatter's printing of its rule (only replayed)", "R's number literals are ASCII, integers end in L, and no text has 4 GiB"], seconds=25)
prop("T02", {"directives": lab(F + "comments_ext.rs", "can_have_directive directives RComments<CommentsExt>::has_skip_directive RComments<CommentsExt>::has_table_directive in_setting in_skip_setting in_table_setting")
             + lab(FA + "call.rs", "is_table FormatRCall<FormatNodeRule>::is_suppressed FormatRCall<FormatRuleWithOptions>::with_options FormatRCall<FormatNodeRule>::fmt_fields")
             + lab(FA + "root.rs", "FormatRRoot::is_suppression_directive FormatRRoot<FormatNodeRule>::is_suppressed FormatRRoot<FormatNodeRule>::fmt_suppressed mark_visited")
             + lab(F + "lib.rs", "FormatNodeRule::fmt FormatNodeRule::is_suppressed FormatNodeRule::fmt_suppressed FormatNodeRule::fmt_leading_comments FormatNodeRule::fmt_dangling_comments FormatNodeRule::fmt_trailing_comments"),
             "comments": lab("crates/comments/src/directive.rs", "trim_comment parse_format_directive parse_comment_directive parse_special_skip_file")},
     "d_formatter",
     "which nodes carry a directive (a comment in front of a statement, argument or operand that reads as one, and nothing else), which calls the settings name (by their own name, also behind `pkg::`), when a file is skipped, what is printed of a node and of a file that is (its text, and nothing of the rule), and what is handed to the arguments of a call that is a table.",
     [TREE, PRINTER, "which comments stand in front of a node is biome_formatter's and air's comment placement (only replayed)", "biome_formatter prints a suppressed node as the source has it"], seconds=25)
prop("T05", {"breaking": LISTS + fields("root:FormatRRoot braced_expressions:FormatRBracedExpressions") + lab(BX, "fmt_binary_chain")
             + lab(FA + "call_arguments.rs", "FormatCallArgument::new FormatCallArgument::leading_lines") + CALLS},
     "d_formatter",
     "what stands between two expressions of a list (one line end; an empty line where the source has one; at the top level two where it has two or more; nothing in front of the first), between two parameters, between the arguments of a call (which an empty line expands), and in front of the right sides of a chain; the end of a file is one line end.",
     [TREE, PRINTER], seconds=20)
prop("T04", {"breaking": BODIES + OPTIONS + lab(FA + "function_definition.rs", "should_force_braced_expressions FormatRFunctionDefinition<FormatNodeRule>::fmt_fields")
             + lab(FA + "if_statement.rs", "compute_braced_expressions RSyntaxNode<SyntaxPositionExt>::position FormatRIfStatement<FormatNodeRule>::fmt_fields FormatIfBody::new_consequence FormatIfBody::new_alternative")
             + lab(F + "loop_body.rs", "FormatLoopBody::new") + fields("else_clause:FormatRElseClause"),
             "printing": fields("repeat_statement:FormatRRepeatStatement while_statement:FormatRWhileStatement for_statement:FormatRForStatement")},
     "d_formatter",
     "what is printed around every body: nothing when it has braces (or is the `if` of an `else if`), braces and a block for loops and where they are forced, else braces that appear exactly when the group breaks; an `else if` inherits the decision.",
     [TREE, PRINTER], seconds=20)
prop("T07", {"breaking": lab(BX, "binary_assignment_has_persistent_line_break fmt_binary_assignment is_chainable_binary_operator as_chainable_binary_expression has_persistent_line_break fmt_binary_chain")
             + lab(FA + "parameters.rs", "has_persistent_line_break FormatRParameters<FormatNodeRule>::fmt_fields")
             + lab(FA + "call_arguments.rs", "has_persistent_line_break FormatCallArgumentHole::new FormatCallArgumentHole::leading_lines FormatCallArgument::new FormatCallArgument::leading_lines") + CALLS + GROUPS
             + lab("crates/settings/src/persistent_line_breaks.rs", "PersistentLineBreaks::is_ignore PersistentLineBreaks::is_respect") + lab(F + "context.rs", "RFormatOptions::persistent_line_breaks")},
     "d_formatter",
     "a chain, parameters, arguments and an assignment are broken whatever their width exactly when the setting says so and the source has a line end in front of the first argument, parameter, right side (or a leading hole's comma), and nowhere else does the source's layout decide.",
     [TREE, PRINTER], seconds=20)
