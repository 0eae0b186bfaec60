# One P(...) per property; executed by properties.py.

P("L01", "Line-ending normalisation removes exactly the CR of every CRLF",
  """A text is classified as having Windows line endings exactly when it contains a CRLF pair. Normalising it yields the
  same characters in the same order without the CR of each CRLF pair and nothing else changed, for owned and borrowed texts alike;
  a text without CRLF comes back unchanged (the borrowing form does not copy it).""",
  ["inputs"], "every valid UTF-8 text",
  "The tests sample four short ASCII texts; the in-place gap algorithm (unsafe set_len, moving slices) must be right for every arrangement and length.",
  ["crates/line_ending/src/lib.rs"], [("gap buffer loop over the CRLF finder", "crates/line_ending/src/lib.rs normalize"), ("detect, then copy only if needed", "crates/line_ending/src/lib.rs normalize_ref, infer")])

P("L02", "The line-ending setting resolves to the documented ending",
  """With the automatic setting (also the default) the output uses the first line ending found in the file, and LF when it has none. The fixed settings
  always give LF or CRLF, and the native setting gives the platform's ending, whatever the file holds.""",
  ["inputs", "configurations"], "every text and every value of the setting",
  "No existing test covers a file whose first line ending is LF and that also contains CRLF.",
  ["crates/workspace/src/settings/line_ending.rs", "crates/line_ending/src/lib.rs"],
  [("resolution of the setting against the source", "crates/workspace/src/settings/line_ending.rs finalize"), ("first line ending", "crates/line_ending/src/lib.rs infer_first")])

P("S01", "Indent and line widths hold exactly the documented range",
  """An indent width is accepted exactly when it lies in 1..=24 and a line width exactly when it lies in 1..=320, from every integer form and from air.toml;
  an accepted width reads back as the number given, a rejected one reports that number. The defaults are 2 and 80.""",
  ["inputs", "configurations"], "every integer value of every accepted integer type",
  "The snapshot tests show one accepted and one rejected value each.",
  ["crates/settings/src/indent_width.rs", "crates/settings/src/line_width.rs"],
  [("range check on the non-zero value", "crates/settings/src/indent_width.rs TryFrom impls"), ("the same for line widths", "crates/settings/src/line_width.rs TryFrom impls")])

P("S02", "Function-name lists answer membership exactly and keep every name",
  """A name is in a skip or table list exactly when it was given, whatever the order, duplicates or characters of the names. A list read back holds exactly
  the given names, sorted; merging two table lists holds exactly the names of both.""",
  ["inputs", "configurations"], "every list of names and every looked-up name",
  "Lookup is a binary search: it is only right if every way of building the list sorts it with the same order; tests use one or two names.",
  ["crates/settings/src/sorted_strings.rs", "crates/settings/src/skip.rs", "crates/settings/src/table.rs"],
  [("sort at construction, binary search at lookup", "crates/settings/src/sorted_strings.rs"), ("merge", "crates/settings/src/table.rs merge")])

P("S03", "Setting keywords parse to their own meaning and nothing else parses",
  """`arrow`, `equal`, `preserve`, `tab`, `space`, `respect` and `ignore` each parse to the setting they name, and every other text (other case, blanks,
  prefixes) is rejected; the predicates on a setting agree with it. The defaults are arrow, space and respect.""",
  ["inputs"], "every string",
  "No existing test parses these keywords.",
  ["crates/settings/src/assignment_style.rs", "crates/settings/src/indent_style.rs", "crates/settings/src/persistent_line_breaks.rs"],
  [("keyword match", "crates/settings/src/assignment_style.rs FromStr")])

P("D01", "A format directive comment is recognised exactly",
  """A comment is a format directive exactly when it is one or more `#`, optional blanks, `fmt:`, and then, between optional blanks, exactly `skip`, `skip file` or
  `table`; it then has that meaning. Any other comment or text is not a directive.""",
  ["inputs"], "every string",
  "A dozen sampled comments cannot show that no other comment is taken for a directive (which would silently stop formatting) nor that every spelling is honoured.",
  ["crates/comments/src/directive.rs"], [("strip marks, split at the first colon, match the command", "crates/comments/src/directive.rs parse_comment_directive")])

P("D02", "Generated files are recognised by their first comment",
  """A comment marks the file as generated (skip the file) exactly when, after its leading `#`s and blanks, it starts with `Generated by`.""",
  ["inputs"], "every string",
  "One sampled comment is tested.",
  ["crates/comments/src/directive.rs"], [("prefix test on the trimmed comment", "crates/comments/src/directive.rs parse_special_skip_file")])

P("W01", "The settings resolver is a map from directories to values",
  """After any sequence of additions and removals the resolver holds exactly one value per path added and not removed since: adding an existing path replaces its value and gives the old one back,
  removing gives the value back, and nothing else changes. Its items are listed in path order without duplicates.""",
  ["histories"], "every sequence of additions, removals and clears over every set of paths",
  "Tests run two or three additions; the list is kept sorted for binary search, so one misplaced insertion silently hides settings later.",
  ["crates/workspace/src/resolve.rs"], [("sorted vector with binary search", "crates/workspace/src/resolve.rs add, remove")])

P("W02", "A path gets the settings of its closest configured ancestor",
  """Resolving a path gives the value stored for the path itself or else for its closest stored ancestor directory, compared component by component; with no stored ancestor there is none and the
  fallback is used.""",
  ["histories", "inputs"], "every stored set of directories and every path",
  "Sibling directories with a common name prefix and deeper nesting than the tests use decide whether the search is right.",
  ["crates/workspace/src/resolve.rs"], [("longest stored prefix", "crates/workspace/src/resolve.rs resolve, resolve_or_fallback")])

P("W03", "Exclude patterns match as gitignore lines under their root",
  """A path matches a pattern list exactly when the last gitignore line that applies to it under the list's root ignores it (a negated line means no match), directories-only lines included. Asked with parents, it
  matches when the path or else its closest matching parent directory does.""",
  ["inputs", "configurations"], "every list of patterns, every path, file or directory",
  "The default list is walked by hand-written code (the library refuses paths outside its root), which tests sample with two patterns.",
  ["crates/workspace/src/file_patterns.rs", "crates/workspace/src/settings/exclude_patterns.rs"],
  [("hand-written walk over the parents", "crates/workspace/src/file_patterns.rs matched_path_or_any_parents")])

P("W04", "The default patterns pick R files and skip generated ones",
  """By default a file is included exactly when its name ends in `.R` or `.r`. A path is excluded exactly when it is, or lies under, a directory named `.git`, `renv` or `revdep`, or is or lies under something named `cpp11.R`, `RcppExports.R`,
  `extendr-wrappers.R` or `import-standalone-*.R`; this holds for relative and absolute paths at any depth.""",
  ["inputs"], "every path",
  "Tests look at a few names; the patterns must not take any other name (one did: `x.,`).",
  ["crates/workspace/src/settings/default_exclude_patterns.rs", "crates/workspace/src/settings/default_include_patterns.rs", "crates/workspace/src/file_patterns.rs"],
  [("glob constants", "crates/workspace/src/settings/default_include_patterns.rs DEFAULT_INCLUDE_PATTERN_NAMES")])

P("W05", "An air.toml yields exactly the documented settings",
  """Each option in `[format]` sets its own setting and no other, and an absent option gives the documented default: no options at all, an empty file and no file give the same settings. `exclude` is relative to the file's directory, `default-exclude = false` drops the default excludes,
  the table list is the user's joined with the default names unless `default-table = false`; an invalid value or unknown key is an error.""",
  ["configurations"], "every combination of options and values",
  "There are about a dozen options with their own defaults; tests set one or two at a time.",
  ["crates/workspace/src/toml_options.rs", "crates/workspace/src/settings.rs", "crates/workspace/src/settings/default_table.rs"],
  [("options to settings", "crates/workspace/src/toml_options.rs into_settings"), ("settings to formatter options", "crates/workspace/src/settings.rs to_format_options")])

P("S04", "Settings reach the formatter and printer unchanged",
  """Every formatting option given to the formatter reads back as given, through the setters, the builders and the printer options, for every admissible value; setting one option never changes another. The defaults are the documented ones.""",
  ["configurations"], "every admissible value of every option, in every order of setting",
  "Widths are converted between integer types of two crates with a panic on failure; tests use the default and one or two values.",
  ["crates/air_r_formatter/src/context.rs", "crates/settings/src/indent_width.rs", "crates/settings/src/line_width.rs", "crates/settings/src/indent_style.rs", "crates/settings/src/line_ending.rs"],
  [("option holder", "crates/air_r_formatter/src/context.rs RFormatOptions"), ("conversion to the printer's types", "crates/settings/src/line_width.rs From<LineWidth>")])

P("W06", "The configuration file is the closest one, air.toml first",
  """Looking up the configuration from a path finds the file in the path itself or else its closest ancestor directory holding one; in one directory `air.toml` wins over `.air.toml`, and only regular files count. A file is a configuration file exactly when its name is one of these two.""",
  ["configurations", "inputs"], "every arrangement of configuration files along the ancestors of a path",
  "Tests cover at most one file in one directory.",
  ["crates/workspace/src/toml.rs"], [("search up the ancestors", "crates/workspace/src/toml.rs find_air_toml")])

P("W07", "Discovery formats exactly the files the settings ask for",
  """Walking the given paths finds a file exactly when neither it nor (for a path the user named) any parent is excluded by the settings of its closest configuration, no directory on the way from the named path to it is, and its name is included; an error met on
  the way is reported and the walk goes on. Each configuration that governs a named path is loaded once.""",
  ["configurations", "inputs"], "every directory tree, configuration and set of named paths",
  "The two exclusion rules (named path: parents too; found path: itself only, rely on pruning) must agree for every depth, pattern and directory; tests sample a handful of trees.",
  ["crates/workspace/src/discovery.rs"], [("decision per entry", "crates/workspace/src/discovery.rs visit_format"), ("configuration discovery", "crates/workspace/src/discovery.rs discover_settings")])

P("W08", "The server leaves excluded and foreign documents alone",
  """The language server refuses to format a document exactly when its path or a parent is excluded by the settings, or when it is neither named like an R file nor opened with language id `r`.""",
  ["configurations", "inputs"], "every path, language id and exclusion setting",
  "There is no unit test of this decision outside the crates that need the network.",
  ["crates/lsp/src/file_patterns.rs", "crates/workspace/src/discovery.rs"], [("decision per document", "crates/lsp/src/file_patterns.rs is_document_excluded")])

P("G01", "A formatting result is honest about change and failure",
  """Formatting a text reports `Unchanged` exactly when the formatter's output equals the source and otherwise returns that output; a text that does not parse, or a failing formatter or printer, is reported as that error and never as a result.""",
  ["inputs"], "every text and every outcome of parser, formatter and printer",
  "Callers write files, set exit codes and make editor edits from this answer alone; tests only see successful formats.",
  ["crates/workspace/src/format.rs"], [("compare and classify", "crates/workspace/src/format.rs format_source_with_parse")])

P("E01", "A text edit makes all its changes at once, whatever order they came in",
  """Insertions, deletions and replacements collected in any order, none overlapping another (equal deletions or replacements count once), become a sorted list of disjoint changes, and applying it replaces
  every deleted range of the original text by its own insertion and keeps everything else; insertions at one position keep the order they were given in. Overlapping changes are refused rather than applied.""",
  ["inputs"], "every text, every list of changes and every order of giving them",
  "Tests apply three changes; coalescing, duplicate handling and the back-to-front application must agree for every list, and the check while building stops after sixteen changes.",
  ["crates/aether_lsp_utils/src/text_edit.rs"],
  [("sort, check, merge neighbours", "crates/aether_lsp_utils/src/text_edit.rs TextEditBuilder::finish, coalesce_indels"), ("from the back", "crates/aether_lsp_utils/src/text_edit.rs TextEdit::apply")])

P("E02", "Text edits unite exactly when they do not conflict, and move offsets exactly",
  """Uniting two edits merges their changes by start (at one start, those of the first edit first, equal deletions and replacements counted once) and succeeds exactly when every change of the merged list ends no later than the next one starts; otherwise both come back unchanged.
  An offset moved through an edit shifts by the length changes in front of it, and has no image exactly when its text is deleted.""",
  ["inputs"], "every pair of edits and every offset",
  "Three unions of deletions are tested.",
  ["crates/aether_lsp_utils/src/text_edit.rs"],
  [("merge and check", "crates/aether_lsp_utils/src/text_edit.rs TextEdit::union"), ("running shift", "crates/aether_lsp_utils/src/text_edit.rs TextEdit::apply_to_offset")])

P("E03", "A computed diff turns the first text into the second",
  """For any two texts, the edit computed by diff is a sorted list of disjoint changes on character boundaries of the first text, and applying it to the first text gives exactly the second.""",
  ["inputs"], "every pair of texts and every chunking the diff algorithm may choose",
  "Nothing tests it directly; the running position must stay right over every sequence of equal, deleted and inserted chunks.",
  ["crates/aether_lsp_utils/src/diff.rs", "crates/aether_lsp_utils/src/text_edit.rs"],
  [("chunks to changes", "crates/aether_lsp_utils/src/diff.rs diff")])

P("E04", "Changes sent by the client leave the server with the client's text",
  """A batch of document changes is applied exactly in order, each position read in the text as the earlier ones left it and in the negotiated encoding (UTF-8, UTF-16, UTF-32), with a full replacement starting afresh and inserted line endings normalised to LF.
  A list of text edits is instead made at once on the original text, edits at one position in array order.""",
  ["histories", "inputs"], "every sequence of full and ranged changes on every text, in every encoding",
  "The line index is deliberately left stale and rebuilt only when a change reaches the lines of the previous one; a wrong condition corrupts the document only for particular multi-change batches.",
  ["crates/aether_lsp_utils/src/proto/from_proto.rs"],
  [("last full change, stale line index", "crates/aether_lsp_utils/src/proto/from_proto.rs apply_text_changes"), ("order of edits", "crates/aether_lsp_utils/src/proto/from_proto.rs apply_text_edits")])
P("E05", "Edits sent to the client rewrite its text exactly as intended",
  """The text edits computed for a new text, applied by a client holding the document with LF or CRLF line endings, give exactly the new text in those line endings, in every position encoding.
  The same edits sent as a list of document changes, which the client makes one after the other, give the same text.""",
  ["inputs"], "every pair of texts, every list of edits, both line endings, every encoding",
  "A wrong line, column, order or line ending silently corrupts the user's file, and only for texts with several edits, wide characters or CRLF.",
  ["crates/aether_lsp_utils/src/proto/to_proto.rs"],
  [("positions", "crates/aether_lsp_utils/src/proto/to_proto.rs position_from_offset"), ("line endings of the replacement", "crates/aether_lsp_utils/src/proto/to_proto.rs text_edit"), ("order of changes", "crates/aether_lsp_utils/src/proto/to_proto.rs doc_edit_vec")])
P("K01", "The server's copy of a document follows the client's",
  """After any sequence of opens, incremental and full changes and closes, the server's text of each open document equals the client's text apart from carriage returns in front of line feeds, and its line endings, line index and syntax tree are those of that text.
  A change never touches another document, an unknown document is an error, and a change older than the document is never applied.""",
  ["histories", "inputs"], "every history of notifications, every text, both line endings mixed in any way, every encoding",
  "Every later answer is computed on the server's copy; once it differs from the client's by one byte, formatting overwrites the user's work at the wrong place.",
  ["crates/lsp/src/documents.rs", "crates/lsp/src/state.rs", "crates/lsp/src/handlers_state.rs"],
  [("normalised on open", "crates/lsp/src/documents.rs Document::new"), ("index, tree and version follow the text", "crates/lsp/src/documents.rs Document::on_did_change"), ("document lookup", "crates/lsp/src/handlers_state.rs did_change, did_close")])
P("K02", "A document is formatted with the settings meant for it",
  """A document governed by a configuration file is formatted with that file's settings whatever the client says; any other document gets the client's own indent style and width over the defaults, invalid widths counting as the default.
  The client's settings and the options of a formatting request change only the document they are for, whatever the order of opens, configuration changes and requests.
  When the client asked for it, it is told the settings of exactly the documents governed by a configuration file.""",
  ["histories", "configurations"], "every history of opens, closes, configuration answers and formatting requests, every answer the client can give",
  "Answers come back in one flat list for all documents and settings; a shifted key or a wrong precedence reindents whole files.",
  ["crates/lsp/src/settings.rs", "crates/lsp/src/settings_vsc.rs", "crates/lsp/src/workspaces.rs", "crates/lsp/src/handlers_state.rs"],
  [("configuration file wins", "crates/lsp/src/workspaces.rs WorkspaceSettings::to_format_options"), ("conversion of the client's values", "crates/lsp/src/settings_vsc.rs"), ("pairing answers with documents", "crates/lsp/src/handlers_state.rs update_config"), ("told back", "crates/lsp/src/notifications/sync_file_settings.rs")])
P("K03", "Documents follow the configuration files of the open workspace folders",
  """After every history of opening and closing workspace folders and of reported configuration file changes, a file document is formatted with the configuration file closest at or above the innermost open folder around it, as it was when the folder was opened or a change was last reported, and with the defaults when there is none or it is invalid.
  An untitled document has the settings of the only open folder, every other document the defaults; a broken configuration file never keeps a later valid one from being used, nor affects another folder.
  When the client asked for it, it is told the new settings of the open documents after a reported change.""",
  ["histories", "configurations"], "every history of folder and file notifications over every set of folders, nested or not, and every configuration file, valid, broken or removed",
  "Folders come and go, nest and break while the server keeps one list; a stale entry formats a whole project with the wrong settings until restart.",
  ["crates/lsp/src/workspaces.rs", "crates/lsp/src/handlers_state.rs", "crates/lsp/src/main_loop.rs", "crates/lsp/src/notifications/sync_file_settings.rs"],
  [("folders to settings", "crates/lsp/src/workspaces.rs WorkspaceSettingsResolver"), ("reloading", "crates/lsp/src/workspaces.rs reload_workspaces_matched_by_url"), ("notifications", "crates/lsp/src/handlers_state.rs did_change_workspace_folders, did_change_watched_files")])
P("G02", "Formatting in the editor gives the client the formatter's text",
  """A formatting request for an excluded document, or one that does not parse, changes nothing, and a failing formatter is an error that changes nothing.
  Otherwise the edits, made by the client on its own text, give exactly the formatter's text for the document's settings in the document's line endings (for a notebook cell without the final line ending), and no edits are sent when there is nothing to change.
  Once the edits are made and reported, formatting again has nothing to do.""",
  ["inputs", "configurations"], "every document text, line ending, encoding, settings and scheme, whatever the formatter returns",
  "This is the operation users run on every save; a wrong line ending, encoding or final newline rewrites the file at every save, and only for some platforms and settings.",
  ["crates/lsp/src/handlers_format.rs"],
  [("excluded and unparsable documents", "crates/lsp/src/handlers_format.rs document_formatting"), ("line endings of the answer", "crates/lsp/src/handlers_format.rs document_formatting"), ("notebook cells", "crates/lsp/src/handlers_format.rs document_formatting")])
P("C01", "The command line writes what it should and its exit status tells",
  """`air format` replaces each discovered file that formatting changes by exactly its formatted text under the settings that govern it, writes no other file, and leaves a file that cannot be read, parsed or formatted as it is while still formatting all others.
  It exits with 0 when every discovered file now holds its formatted text, and with 255, after reporting each failing file, otherwise.
  With `--check` nothing is ever written: it exits with 255 if some file cannot be formatted, else with 1 and the list of exactly the files that would change, else with 0.""",
  ["inputs", "configurations", "fault_sequences"], "every tree of files and configurations, every list of paths and flags, every file that cannot be read, parsed, formatted or written",
  "Continuous integration relies on the exit status and on --check being harmless; one wrong branch passes unformatted code or overwrites a file with something else.",
  ["crates/air/src/commands/format.rs", "crates/air/src/commands/format/paths.rs", "crates/air/src/status.rs"],
  [("writing", "crates/air/src/commands/format/paths.rs format_paths_write, write_path"), ("checking", "crates/air/src/commands/format/paths.rs format_paths_check, check_path"), ("exit status", "crates/air/src/status.rs")])
P("C02", "Standard input comes out formatted, or as it is",
  """With `--stdin-file-path` air prints exactly the formatted text of standard input under the settings that govern the path, and exactly standard input itself when a file at that path would be left alone or formatting changes nothing; when the text cannot be read, parsed or formatted it prints nothing and exits with 255.
  The decision whether to format agrees with what `air format` decides for that path, and no file is ever touched.
  With `--check` nothing is printed, and the exit status is 1 exactly when formatting would change the text.""",
  ["inputs", "configurations"], "every text, path, tree of configurations and flags, output that cannot be written",
  "Editors replace their buffer with what is printed: an empty or partial output, or a formatted file the user excluded, loses work.",
  ["crates/air/src/commands/format.rs", "crates/air/src/commands/format/stdin.rs", "crates/air/src/status.rs"],
  [("formatted or passed through", "crates/air/src/commands/format/stdin.rs format_stdin_write"), ("formattable", "crates/air/src/commands/format/stdin.rs is_stdin_formattable"), ("exit status", "crates/air/src/status.rs")])
P("R01", "Parsing loses nothing of the source",
  """For every source text without syntax errors, the tokens of the syntax tree and the trivia attached to them, read in order, are exactly the text: every token, comment, blank and line ending once, none changed, moved or invented.
  Comments and blanks behind a token on its line are its trailing trivia; everything from the next line ending on belongs to the next token, and what follows the last token belongs to the end of the file.""",
  ["programs"], "every source text, with comments, blank lines, CRLF and semicolons anywhere between tokens",
  "The formatter prints what the tree holds: trivia dropped or doubled at a rare place deletes or repeats the user's comments, and tests sample a handful of places.",
  ["crates/air_r_parser/src/parse.rs", "crates/air_r_parser/src/treesitter.rs"],
  [("pieces between tokens", "crates/air_r_parser/src/parse.rs RParse::derive_trivia"), ("tokens, comments and the end", "crates/air_r_parser/src/parse.rs RWalk::handle_token, handle_comment_leave, handle_root_leave"), ("every leaf is visited", "crates/air_r_parser/src/treesitter.rs Preorder")])
P("R02", "The syntax tree has the structure of the source",
  """For every source text without syntax errors, the tree built has the nodes, kinds and nesting the grammar gives the source, with its literals (numbers, strings, identifiers) as single tokens.
  Parameters, arguments and braced expressions are lists in source order; the names of arguments, the defaults of parameters and the `else` of an `if` are in clauses of their own; and every missing argument (before a comma or the closing delimiter behind a comma) is a hole.""",
  ["programs"], "every source text over the grammar, any nesting, comments between any two tokens",
  "The grammar of air's tree is not tree-sitter's: lists, clauses and holes are added while walking, and one added at the wrong place for a particular mix of comments and commas changes the meaning of what is printed.",
  ["crates/air_r_parser/src/parse.rs", "crates/air_r_parser/src/treesitter.rs"],
  [("walking", "crates/air_r_parser/src/parse.rs RWalk::walk, handle_enter, handle_leave"), ("lists and holes", "crates/air_r_parser/src/parse.rs handle_arguments, handle_hole_before_comma, handle_hole_before_close"), ("kinds", "crates/air_r_parser/src/treesitter.rs node_syntax_kind"), ("order of the visit", "crates/air_r_parser/src/treesitter.rs Preorder")])
P("R03", "Parsing reports an error exactly when the source has one",
  """Parsing a text gives an error exactly when the grammar does not accept the text, whatever the text.
  The tree is then a single bogus expression whose one token is the whole text; otherwise it is the complete tree, and every way of asking for the tree or the error gives that same answer.""",
  ["programs"], "every text, with or without syntax errors",
  "The command line and the editor leave files with errors alone only because of this answer; half a tree taken for a whole one would overwrite the file with part of it.",
  ["crates/air_r_parser/src/parse.rs"],
  [("error or tree", "crates/air_r_parser/src/parse.rs parse_from_treesitter, parse_failure"), ("asking for it", "crates/air_r_parser/src/parse.rs Parse::into_result, has_error, error, into_error")])
P("T03", "The assignment style applies wherever R allows it, and nowhere else",
  """With the style `arrow` every `=` assignment is printed as `<-`; with `equal` every `<-` whose place in R's grammar also takes `=` is printed as `=`, and every other one stays `<-`; with `preserve` each stays what it is.
  All other operators, the names of arguments and the defaults of parameters are printed as they are, and the program keeps its meaning.""",
  ["programs", "configurations"], "every program (any nesting of assignments in arguments, conditions, bodies, operators), every style",
  "`f(x <- 1)` rewritten to `f(x = 1)` still parses and means something else: one missing place in the decision silently changes what the user's code does.",
  ["crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"],
  [("which places take =", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs can_normalize_to_equal"), ("the operator", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs fmt_left_assignment_operator")])
P("T04", "Bodies get braces exactly when they need them",
  """A body that has braces keeps exactly those. An unbraced loop body always gets braces; an unbraced body of a function gets them when it starts on its own line or the function breaks over lines.
  The bodies of an `if`/`else` chain get them, all or none, when the value of the `if` is not used, when one of them has braces, is an `if` of its own or starts on its own line, when the `else` starts a line, or when the statement breaks over lines; an `if` behind an `else` is never wrapped.""",
  ["programs"], "every program, every nesting of conditionals, loops, functions and blocks",
  "Braces put around half of a chain, or an `else` left alone on its line at top level, is code that no longer parses or reads differently from what was written.",
  ["crates/air_r_formatter/src/r/auxiliary/if_statement.rs", "crates/air_r_formatter/src/r/auxiliary/else_clause.rs", "crates/air_r_formatter/src/r/auxiliary/function_definition.rs", "crates/air_r_formatter/src/loop_body.rs"],
  [("decision for a chain", "crates/air_r_formatter/src/r/auxiliary/if_statement.rs compute_braced_expressions, position"), ("bodies", "FormatIfBody, FormatFunctionBody, FormatLoopBody")])
P("T01", "Tables: rows as the source has them, commas below each other",
  """The unnamed arguments in front of the first named one of a table are its cells: a line end in front of an argument (in front of the comma, for a hole) starts a row, rows keep their order and empty lines between them are kept as one, and the other arguments follow, one per line.
  Each column is as wide as its widest cell needs it and no wider, so that the commas of a column stand below each other; in a column of numbers with a point the points do (an integer's `L` counts as one), other columns of numbers are flush right, everything else is flush left.
  Widths are counted in characters; a cell whose own text takes several lines gives up on the table and the call is kept as it is.""",
  ["programs", "configurations"], "every program, every shape of a table (ragged, holes, comments), every text of a cell",
  "Tables are there to keep hand-made alignment; a column one too narrow, a row joined to another or an argument taken for a cell destroys what the directive was put there for.",
  ["crates/air_r_formatter/src/call_arguments_table.rs"],
  [("rows and columns", "crates/air_r_formatter/src/call_arguments_table.rs build_table_impl"), ("cells", "crates/air_r_formatter/src/call_arguments_table.rs ArgKind::parse"), ("blanks around cells", "crates/air_r_formatter/src/call_arguments_table.rs ColumnInfo::padding"), ("printing", "crates/air_r_formatter/src/call_arguments_table.rs fmt_table")])
P("T02", "Directives: what is kept as it is written, and what becomes a table",
  """A statement, argument or operand with `# fmt: skip` among the comments in front of it, and a call whose name (also behind `pkg::`) is in the `skip` setting, is printed exactly as the source has it; so is a whole file with `# fmt: skip file` among the comments in front of its first statement, or with `Generated by` at the start of the first of them.
  A call with `# fmt: table` in front of it in such a place, or whose name is in the `table` setting, is laid out as a table.
  Nothing else is: other comments, the same words elsewhere, and other names have no such effect.""",
  ["programs", "configurations"], "every program, every place and spelling of a comment, every `skip` and `table` setting",
  "Skipping is the way out when the formatter ruins something hand-aligned; when it does not hold, or holds for more than it says, people lose work or silently stop being formatted.",
  ["crates/air_r_formatter/src/comments_ext.rs", "crates/air_r_formatter/src/lib.rs", "crates/air_r_formatter/src/r/auxiliary/call.rs", "crates/air_r_formatter/src/r/auxiliary/root.rs", "crates/comments/src/directive.rs"],
  [("which comments count, and where", "crates/air_r_formatter/src/comments_ext.rs"), ("the settings", "crates/air_r_formatter/src/comments_ext.rs in_setting"), ("files", "crates/air_r_formatter/src/r/auxiliary/root.rs is_suppressed, fmt_suppressed"), ("kept instead of formatted", "crates/air_r_formatter/src/lib.rs FormatNodeRule::fmt")])
P("T05", "Empty lines: kept one by one, never made up",
  """Between two expressions on the same level formatted code has exactly one line end where the source has at most one, and an empty line where the source has empty lines: one at most inside braces, up to two at the top level; a block or file starts and ends without any, and a file that is not empty ends in exactly one line end.
  Operands of a broken chain, parameters and expanded arguments keep one empty line in front of them where the source has some. No empty line appears where the source has none.""",
  ["programs", "configurations"], "every program, every number of line ends at every place, every formatter setting",
  "Empty lines are how people group code; a formatter that eats or adds them churns every file it touches, and grows files when it runs again.",
  ["crates/air_r_formatter/src/joiner_ext.rs", "crates/air_r_formatter/src/r/lists", "crates/air_r_formatter/src/r/auxiliary/root.rs", "crates/air_r_formatter/src/r/auxiliary/call_arguments.rs"],
  [("between expressions", "crates/air_r_formatter/src/joiner_ext.rs JoinNodesBuilderExt::entry"), ("one or two", "crates/air_r_formatter/src/r/auxiliary/root.rs fmt_fields, braced_expressions.rs"), ("chains", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs fmt_binary_chain")])
P("T06", "Formatting prints the program, all of it, once, in order",
  """For every program the printed text parses, and its tree is the program's: every token and every node once, in order, up to layout, braces around unbraced bodies and the spelling of left assignments.
  Every comment is printed exactly once, and the text of strings is kept, their line endings normalized.""",
  ["programs", "configurations"], "every program with comments anywhere, every formatter setting",
  "This is what makes a formatter safe to run on save; a field forgotten in one rule for one optional part deletes code.",
  ["crates/air_r_formatter/src/r/auxiliary", "crates/air_r_formatter/src/loop_body.rs", "crates/air_r_formatter/src/string_content.rs", "crates/air_r_formatter/src/comments.rs"],
  [("where comments go", "crates/air_r_formatter/src/comments.rs RCommentStyle::place_comment"), ("what each node prints", "crates/air_r_formatter/src/r/auxiliary/*.rs fmt_fields"), ("strings", "crates/air_r_formatter/src/string_content.rs"), ("binary chains", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs fmt_binary_chain")])
P("T07", "Only the line breaks that persist survive",
  """With persistent line breaks respected, a line break in front of the first argument, the first parameter, the first right-hand side of a chain of operators or pipes, or behind a left assignment or formula tilde keeps that whole construct broken, however short (titled blocks such as `test_that("..", {..})` excepted).
  Any other single line break between arguments, parameters or operands leaves no trace: putting one there or taking it away does not change the result; blank lines between arguments and bodies on their own line keep their own rules. With the setting off, these breaks leave no trace either.""",
  ["programs", "configurations"], "every program, every place a line break can be put, both values of the setting",
  "Users steer air's layout with this one rule; a break that sticks where it should not makes the output depend on history, one lost reflows code people laid out on purpose.",
  ["crates/air_r_formatter/src/r/auxiliary/call_arguments.rs", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs", "crates/air_r_formatter/src/r/auxiliary/parameters.rs"],
  [("arguments", "crates/air_r_formatter/src/r/auxiliary/call_arguments.rs has_persistent_line_break"), ("chains and assignments", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs has_persistent_line_break, binary_assignment_has_persistent_line_break"), ("parameters", "crates/air_r_formatter/src/r/auxiliary/parameters.rs has_persistent_line_break")])
