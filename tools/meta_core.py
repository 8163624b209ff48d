# Property texts, part 2: path mappings, components, pandas-models, utilities.
from meta_xleash import prop, I, H, C, F

MP, PD, UT, CO = ("pandalone/%s.py" % n for n in ("mappings", "pandata", "utils", "components"))

prop(
    "P17", "Mapped paths follow the declared mappings step by step",
    "Mapping a rooted path rewrites, at each step matched by mappings, that step with the destination of the exact mapping if there is one, else of the regular expression declared last among those fully matching the step (with its groups expanded), the children of all matching mappings applying to the steps below, later declared ones overriding and exact ones overriding regular expressions (a mapping declares all the steps of its origin path). "
    "A step with no mapping is kept; a relative destination replaces the step, one beginning with '.' is appended after it, an absolute one re-roots the path, and '.', '..' and repeated roots are then normalized. "
    "Without any matching mapping a path maps to its normalized self.",
    [I], "All mapping lists (exact, regex, nested, overlapping, re-declared) and all paths.",
    "Precedence and merging interact per combination of mappings; tests fix some thirty.",
    [MP], [("merge, descend, map", MP + ":Pmod.descend, _merge, map_path"), ("construction", MP + ":pmods_from_tuples"), ("join", MP + ":_append_step, _join_paths")],
    ["pmods_from_tuples(...).map_path(s)"],
    technique="runtime monitor: reference mapper (explicit rule-list interpreter) as differential oracle",
    note="The reference interprets the rule list directly, with no merged trees. Paths and destinations without '~' escapes or trailing slashes, except the root.")

prop(
    "P18", "Using mappings never changes them",
    "Descending, looking up an alias, mapping paths, referencing or renaming path attributes and building components, leave a mappings hierarchy equal to what was declared, so every mapping result is the same whatever was mapped before, in whatever order, and equal to that of freshly built mappings. "
    "Mapping many paths equals mapping each one alone.",
    [H], "All histories of map/descend/alias/path-reference/component-build operations sharing one hierarchy.",
    "Merging shares sub-hierarchies between results for economy; only histories reveal that one got modified.",
    [MP], [("copy-on-merge", MP + ":Pmod._merge, _override_steps, _override_regxs")],
    ["structural snapshots of the hierarchy around each operation", "map_path results"],
    technique="runtime monitor: structural snapshots (frame monitor) and fresh-hierarchy differential over random histories",
    note="Renaming path attributes by assignment is among the operations.")

prop(
    "P19", "Referenced path-attributes are the paths used, mapped or not",
    "Referencing attributes of a path object creates the steps: the same attribute always gives the same object, each step is a string equal to its mapped name (or own name if unmapped) and usable as key for it, and listing paths gives exactly the joined, sorted, duplicate-free paths of the leaves referenced so far - or of the tagged steps when a tag is asked. "
    "With mappings whose destinations are plain names or relative paths without dots, the listed paths are those obtained by mapping the unmapped paths. "
    "Assigning a string renames just that step keeping its children and tags, and assigning anything else than a string or path is an error.",
    [H, I], "All reference/assign/tag sequences over nested paths with and without mappings.",
    "Tests follow fixed reference chains.",
    [MP], [("attribute creation", MP + ":Pstep.__getattr__, __setattr__"), ("listing", MP + ":Pstep._paths")],
    ["Pstep attributes, str values, _paths()"],
    technique="runtime monitor: shadow tree maintained along random reference/assign/tag histories, compared after each event",
    note="Attribute names are identifiers not colliding with string methods.")

prop(
    "P20", "Locked steps reject mappings that rename or relocate them",
    "Locking a step that is mapped to another name, and fixing a step that is relocated (mapped to a multi-step path), raises ValueError and leaves its lock state unchanged; locking or fixing any other step succeeds, records the new state and returns the very step for chaining. "
    "Renaming without relocation is compatible with fixing.",
    [I, H], "All mappings of a step and all sequences of lock-state changes.",
    "Tests cover isolated states, not sequences over mapped trees.",
    [MP], [("lock guard", MP + ":Pstep._locked, _fix, _lock")],
    ["exceptions and lock states"],
    technique="runtime monitor: lock-state automaton compared along random lock/fix/unlock histories",
    note="Claims the guard at locking time only; later assignments are not guarded by the code nor documented to be.")

prop(
    "P21", "A component's inputs and outputs are the mapped paths its function uses",
    "Building a function component gives as inputs and outputs exactly the paths its function references through the input and output path helpers, renamed by the given mappings, however many times and with whatever mappings it was built before; building runs the function without touching any real data. "
    "An assembly's inputs and outputs are the sorted unions over its components built with the same mappings. "
    "Run on a data-tree whose contents were relocated by the mappings, a built component reads and writes the relocated places with the same computed values as the unmapped component does at the original places.",
    [H, C], "All component functions referencing nested paths, all mappings, all rebuild sequences.",
    "Tests build each component once or twice with one mapping.",
    [CO, MP], [("build", CO + ":FuncComponent._build, Assembly._build")],
    ["component inputs/outputs after build", "reads/writes of a logging data-tree"],
    technique="runtime monitor: access-logging data-tree and path-set oracle over rebuild histories",
    note="Data-trees are nested containers accessed through resolved pointers.")

prop(
    "P22", "JSON pointers address every node of a document and nothing else",
    "Escaping any text as a pointer part and splitting a pointer joined of such parts gives back the same texts, also when they hold '~', '/' or are empty. "
    "The pointer to any node of a nested document of dictionaries, lists, and pandas Series or DataFrames resolves to that very node, the empty pointer to the document itself; a pointer to no node gives the default when provided (even None) and otherwise a reference-resolution error, as does a pointer not starting with a slash.",
    [I], "All documents, all their nodes and all non-node pointers.",
    "Tests take RFC examples; keys mixing '~' and '/' in all orders and every node position are not covered.",
    [PD], [("escape/split/resolve", PD + ":escape_jsonpointer_part, iter_jsonpointer_parts, resolve_jsonpointer")],
    ["resolve_jsonpointer / iter_jsonpointer_parts results"],
    technique="runtime monitor: round-trip and node-identity oracle over every node of generated documents",
    note="Negative or non-canonical list indices, indexing into strings, and number-like steps that are no label of a Series with text labels (then taken as positions) are outside the statement.")

prop(
    "P23", "Setting by JSON pointer changes the pointed node and nothing else",
    "After setting a value by a pointer into a document of dictionaries and lists, resolving the pointer gives that very value and every node not on the pointer's path is unchanged; missing intermediate branches are created (scalars in the way being replaced), and for lists an existing index replaces the item, '-' or the index one past the end appends. "
    "An index further out of bounds or a non-number for a list raises a reference-resolution error and leaves the document unchanged, as does an empty pointer.",
    [I, H], "All documents, pointers (existing, extending, appending, invalid) and sequences of sets.",
    "Frame conditions over all other nodes are not assertable by examples.",
    [PD], [("set", PD + ":set_jsonpointer")],
    ["documents before/after each set"],
    technique="runtime monitor: shadow document (reference setter) compared after each event of random set histories",
    note="Pointers through lists into nested branches included; in-range negative indices excluded.")

prop(
    "P24", "Path resolution handles relative, absolute and attribute steps alike",
    "Resolving a relative path walks from the given document, each step as list index, item key or attribute, in this order of preference; an absolute path walks the same from the root document - the given root if any, even an empty one, else the document itself. "
    "A path with an unresolvable step gives the default if provided, else a reference-resolution error naming the path.",
    [I], "All documents mixing containers, pandas objects and attributes, all paths and roots.",
    "Tests never give an empty or pandas root (which failed).",
    [PD], [("resolution", PD + ":resolve_path")],
    ["resolve_path results"],
    technique="runtime monitor: reference walker oracle over generated mixed documents",
    note="Paths without empty steps but the leading one; strings and number-like text labels of Series are not walked into.")

prop(
    "P25", "Submodels merge so that upper ones override lower ones, branch by branch",
    "The built model holds, at every path, the value of the topmost submodel having a non-null value there: dictionaries merge key by key recursively, sequences, scalars and branches of another kind are replaced whole, and tables and series take the upper's values over the lower's, keeping those of the lower that the upper lacks. "
    "A default in the schema fills only what no submodel provides. Building again, or after adding a submodel, gives what a fresh build of the same stack gives.",
    [I, H], "All stacks of nested submodels and their order, with and without schema defaults.",
    "Tests merge a few pairs; upper defaults used to override real lower values.",
    [PD], [("merge", PD + ":Pandel._clone_and_merge_submodels"), ("steps", PD + ":Pandel.build_iter")],
    ["Pandel.build() results"],
    technique="runtime monitor: reference merge oracle over random stacks and rebuild histories",
    note="A null over another null is refused with an error, so stacks with those are only checked for it; tables not over or under dictionaries, row and column labels unique.")

prop(
    "P26", "Building a model never alters the submodels or the schema given",
    "Whatever the outcome of building - success, validation errors, failing curation - every submodel and every schema passed in compares equal, at all depths, to its state before the build. "
    "Modifying the built model, or curating it in place, never shows through in the submodels, the schema or any other built model.",
    [H, F], "All submodel stacks, schemas with defaults, curate functions mutating or failing, and repeated builds.",
    "No test compares inputs after a build; they were modified by auto-defaults, merging and curation.",
    [PD], [("cloning", PD + ":Pandel._prevalidate, _merge"), ("defaults", PD + ":_rule_auto_defaults_properties")],
    ["deep snapshots of submodels and schemas around builds and model mutations"],
    technique="runtime monitor: deep-snapshot frame monitor around builds with mutating/failing curators",
    note="Mutable containers, Series, DataFrames and arrays.")

prop(
    "P27", "Model building stages strictly, and reports every failure as an error",
    "A building step starts only if all previous steps were free of errors: submodels failing the loose schema are never merged (no model results), a merged model failing the strict schema is never curated, and all errors of the failing step are reported followed by a final give-up error naming that step. "
    "Exceptions of any type from merging, validating or curating are reported as validation errors keeping the original cause, never raised out of the iteration. "
    "Build returns the model if and only if no error was reported, and otherwise raises the first one.",
    [F, I], "All combinations of faulty submodels, merged-model faults, and failing curators at any position.",
    "Tests check two faulty stacks; no test has failing curators.",
    [PD], [("staging", PD + ":Pandel.build_iter, build")],
    ["event log of schema requests, curator calls and yielded errors"],
    technique="runtime monitor: event log of steps/curators/errors checked against a staging automaton, with injected faults",
    note="Observed through overridable schema hook and curator callbacks.")

prop(
    "P28", "Pandas and numpy instances validate like the equivalent plain JSON",
    "Validating a dictionary tree holding Series, DataFrames, numpy arrays and numpy scalars finds it valid or invalid exactly as the equivalent plain tree (mappings for objects, lists for columns and arrays, plain scalars) is by standard JSON-schema rules for type, properties and their number, required, additional and pattern properties, items, their number and uniqueness, ranges, string patterns, enumerations and combinations of them. "
    "A plain tree gets exactly the verdict of the standard validator for its schema version.",
    [I], "All schemas over the listed rules and all instance trees in plain and pandas/numpy clothing.",
    "Tests run the standard suite on plain instances and a few wrapped ones.",
    [PD], [("type checks and overridden rules", PD + ":PandelVisitor, _is_array, _is_object, _rule_additionalProperties, rule_enum")],
    ["PandelVisitor(...).iter_errors verdicts"],
    technique="runtime monitor: differential verdict oracle against the stock jsonschema validator over paired plain/pandas instances",
    note="Values whose plain equivalent is unambiguous: no whole-valued floats against integer, no booleans nested within enumerated containers, no row-count rules on tables, no NaNs.")

prop(
    "P29", "Schema defaults and null removal touch exactly the properties they should",
    "While validating, a missing property having a schema default is filled with it if auto-default is on; a null one - whose schema type does not admit null - is replaced by the default if default-for-nulls is on, or else removed if null-removal is on; nothing else in the instance changes, at any nesting level. "
    "A property's own switch in the schema overrides the validator's setting both ways; filled values are independent copies of the schema's default, so the schema never changes.",
    [I, C], "All settings of the three switches at validator and property level, schema types, and nested instances incl. pandas ones.",
    "Tests sample a few of the 27x27 switch combinations, on flat plain dictionaries.",
    [PD], [("default rule", PD + ":_rule_auto_defaults_properties")],
    ["instances and schemas before/after validation"],
    technique="runtime monitor: reference defaulting oracle plus schema-frame monitor; all switch combinations in thorough",
    note="Null is None or NaN; a one-element array or Series holding NaN is null too. Pandas instances with scalar defaults only.")

prop(
    "P30", "The JSON codec round-trips any picklable object",
    "Encoding any picklable object - nested containers, texts, bytes, numbers, dates, numpy arrays, pandas objects, instances of user classes - yields valid JSON, as text or in a file, which decodes to an equal object of the same type, whatever bytes or characters it contains.",
    [I], "All picklable objects and byte contents.",
    "Tests encode seven objects; pickles holding carriage-returns were corrupted.",
    [PD], [("quoted-printable pickle", PD + ":JSONCodec")],
    ["json.dumps/loads with the codec"],
    technique="runtime monitor: round-trip equality oracle over adversarial byte patterns",
    note="Objects whose plain pickling preserves them; texts or files, with any JSON formatting options.")

prop(
    "P31", "Names with units split into name and units, or are refused",
    "A text composed of a name without brackets, optional blanks, and an optional unit enclosed in [] or <> parses to that name stripped of outer blanks and that unit without its brackets (pairs of the other kind inside it belong to it), the unit being None when there is none. "
    "A text with an opening bracket that is never closed, or with text after the closing one, gives None.",
    [I], "All names, units and blanks, and malformed texts.",
    "Doctests cover seven strings.",
    [PD], [("regex", PD + ":parse_value_with_units")],
    ["parse_value_with_units results"],
    technique="runtime monitor: composition oracle (parts known by construction)",
    note="Names contain no kind of bracket ([]<>), and units at most balanced ones of the other kind; parentheses are fine.")

prop(
    "P32", "Unique file names never collide, and extensions are ensured once",
    "The unique-name helper returns the given name if no such file exists, and otherwise the first non-existing name of the numbered sequence with the number placed before the extension (or of the sequence the caller provides); it never creates, removes or returns an existing file. "
    "Ensuring an extension returns a name that has one of the wanted extensions, unchanged if it already had (ignoring case), else with the first one appended after a single dot; doing it again changes nothing. "
    "Ensuring a directory creates missing parents, accepts an existing one (even if made by others meanwhile) and fails if a file is in the way.",
    [I, H], "All names with and without extensions and folders, all sets of existing files, all extension lists.",
    "Tests create two files; each existing-files set gives another answer.",
    [UT], [("helpers", UT + ":make_unique_filename, generate_filenames, ensure_file_ext, ensure_dir_exists")],
    ["return values and a directory listing before/after"],
    technique="runtime monitor: filesystem-state oracle over random file histories in a scratch directory",
    note="Runs only inside a scratch directory of its own.")

prop(
    "P33", "Paths survive conversion to urls and back, keeping trailing slashes",
    "Converting an absolute or relative local path to a url gives an absolute file url, and the path of that url converts back to the normalized absolute path; an http(s) url passes through with scheme, host, query and fragment intact and its path, if any, normalized. "
    "A trailing slash is kept, and none is added, by url conversions both ways and by path normalization and absolutization, whose results otherwise equal the standard ones; environment variables and the user's home expand when asked and only then, once: the variables within the values of others are left alone, as is (by convpath) a '~' in them.",
    [I], "All posix paths and ordinary urls, of any length.",
    "Tests list some paths, none long, and mostly Windows spellings.",
    [UT], [("conversions", UT + ":path2url, path2urlpath, urlpath2path, normpath, abspath, convpath")],
    ["return values"],
    technique="runtime monitor: round-trip oracle against posixpath/urllib over generated paths",
    note="Posix only; in path2url, '%', '#', '?', ';', backslashes, drive letters, colons in the first segment, leading blanks, and doubled slashes at the start or next to dot-segments are outside, and a path ending in a dot-segment may gain a slash.")

prop(
    "P34", "Booleans from text, executable search and log streams keep their contracts",
    "Text converts to boolean ignoring case and outer blanks: yes/true/on are true, no/false/off/0 and blank are false, any other text is true, and non-texts (numbers, None, containers) are an error; any object converts likewise by its text if it is a text, else by its truthiness. "
    "Searching executables gives, in path order, exactly the executable regular files so named, bare or with a .bat, .com or .exe suffix, in the folders searched (the current search path by default, of which the first is the one to run). "
    "A stream over a logger emits each written text once without its line ending, at its level, and skips empty ones.",
    [I], "All texts and objects, folder contents and search paths, and sequences of writes.",
    "Tests and doctests sample a few; truthy non-texts used to fail.",
    [UT], [("helpers", UT + ":str2bool, obj2bool, py_where, where, which, LoggerWriter")],
    ["return values", "log records captured by a handler"],
    technique="runtime monitor: reference oracles over generated texts, executable layouts and log-record events",
    note="The executable search runs over scratch folders.")

prop(
    "P35", "The pandas filters build the frame that pandas reads from the same cells",
    "Lassoing all cells of a sheet with the df filter gives the frame that pandas.read_excel() gives for that sheet, with the same reader arguments (header(s), index column(s), names, columns and rows to use or skip, nulls, booleans, types), and as a series if asked to squeeze a single column: no cell is lost, every blank one is null, and by default the first row labels the columns. "
    "The sr filter makes two columns into the series keyed by the first. "
    "Both replace only the values of the lasso, empty values give an empty frame, and boolean headers and arguments declared unsupported are a ValueError that under lax leaves the values as they were.",
    [I, C], "All tables and reader arguments.",
    "The tests of these filters could not run: the filters failed to install with current pandas, and most rarer arguments were ignored or crashed.",
    ["pandalone/xleash/_pandas_filters.py"], [("filters", "pandalone/xleash/_pandas_filters.py:_df_filter, install_filters")],
    ["values of returned lassos"],
    technique="runtime monitor: differential against pandas.read_excel on written workbooks, and cell-by-cell oracle on in-memory sheets",
    note="Arguments sampled: header, index_col, usecols, names, skiprows, nrows, skipfooter, na_values, keep_default_na, na_filter, dtype, true/false_values, thousands, comment, parse_dates, squeeze; only where pandas itself reads the file.")

XU = "pandalone/xlsutils.py"

prop(
    "P36", "Steps remember their origins, and can be rebuilt from tables of names",
    "Each step of a hierarchy lists its children in the order they were first referenced, and remembers the name it was referenced by: listing paths with origins shows each renamed step as (origin-->name), and the derived mapping-pairs are, for every step, its unmapped path and its current name, sorted by path; mappings made of those pairs give, for the same references, the same names and paths. A step that a renaming replaced stays as it was, independent of the one replacing it; an alias given for a step wins over its mapping. A step assigned from another one starts with its children, tags and schema, under the new name, and neither affects the other later. "
    "A hierarchy made from a data-frame has a step for each path of its index, at any depth, named by its name column (or by its own name if null), and carrying the values of the other columns, as they are, as private attributes. "
    "A schema exists only on the steps it has been asked for, and holds exactly what was set on it; steps serve as keys, columns and labels by their name.",
    [H, I], "All reference/rename histories and all tables of paths, names and attributes.",
    "Tests fix two listings and one flat table without attributes; nested or nameless rows failed.",
    [MP], [("listings", MP + ":Pstep._paths, _derrive_map_tuples, _steps, _schema"), ("from table", MP + ":pstep_from_df")],
    ["Pstep listings", "pmods_from_tuples(derived).step()", "pstep_from_df()"],
    technique="runtime monitor: shadow tree along random histories, and round-trip of the derived mappings",
    note="Rebuilding is claimed for names without dots or empty ones, which mappings interpret; attribute names as in P19.")

prop(
    "P37", "Importing VBA replaces the like-named modules and saves once, with macros",
    "Importing VBA-files matching a wildcard into a workbook (given, or the active one) leaves it with exactly one module per file, named as the file without extension and holding its code, in place of any module having that name, and with all other modules as they were; then the workbook is saved once: under the new name if given, else in place if already macro-enabled, else as macro-enabled with '.xlsm' appended. "
    "With no matching files nothing is changed or saved; protected or inaccessible projects, and no active workbook, are errors that change nothing. "
    "Removing modules removes the standard ones named, in any case, or all of them if no name is given. The command-line does the same, and finds the project's own macros. A file is an excel one by its extension, in any case; shortcuts get exactly what was given, and are saved once.",
    [I, C], "All workbooks, file-sets and arguments.",
    "The tests need MS Excel and are always skipped here.",
    [XU, "pandalone/winutils.py"], [("import", XU + ":import_vba_into_excel_workbook, _import_vba_files, _remove_vba_modules, main"), ("shortcuts", "pandalone/winutils.py:win_create_shortcut")],
    ["modules, saves and dialogs recorded by a stand-in of Excel's object-model"],
    technique="runtime monitor: event log and final state of an instrumented stand-in of the Excel object-model that enforces its naming rules",
    note="MS Excel itself cannot run here; the stand-in implements only what the code uses. File names distinct regardless of case.")

prop(
    "P38", "Names, texts and pairs are reshaped losslessly",
    "Snake-casing a name inserts an underscore before each run of capitals following a lower-case letter or digit, and lower-cases all, losing nothing else and being stable when repeated; command-names have dashes for underscores. "
    "The first line of a text is its first non-blank line, stripped, or None. Formatted pairs are one line each, in order, with keys padded to the least positive multiple of the indent fitting them. "
    "Sequences become lists of the same items, and anything else, texts included, the list of that one.",
    [I], "All names, texts, pairs and objects.",
    "No test or doctest covers most of them.",
    [UT], [("helpers", UT + ":camel_to_snake_case, camel_to_cmd_name, first_line, format_pairs, as_list")],
    ["return values"],
    technique="runtime monitor: character-level reference oracles and laws on generated names, texts, pairs and objects",
    note="Letters outside ASCII are not capitals.")

prop(
    "P39", "All leaf paths of a schema are listed, as JSON-pointers to them",
    "Listing the paths of a schema gives, as JSON-pointers (escaped where names need it), exactly the paths of those nodes, reached through properties and alternatives (oneOf, anyOf, allOf), that declare no properties themselves; without alternatives each is given once, and setting values through them makes a document having the tree of properties of the schema. The schema is not modified.",
    [I], "All schemas of nested properties and alternatives.",
    "The single test asks for one path in the list.",
    [PD], [("listing", PD + ":build_all_jsonpaths")],
    ["build_all_jsonpaths(schema)", "set_jsonpointer / resolve_jsonpointer with them"],
    technique="runtime monitor: own schema walk as differential oracle, and round-trip through documents",
    note="References ($ref) and items are not followed, as the code declares.")

prop(
    "P40", "The outcome of a call depends on nothing but its inputs",
    "Merging and validating models, mapping paths and collecting the steps of components, lassoing given sheets, parsing xl-refs, listing schema paths, the codec and the helpers give the same outcome for equal inputs: "
    "the same values, order (of keys, columns, paths and errors), and error with its message; in any process (so whatever the hash randomization), after any other such calls, when repeated, and when several threads make them at once on objects of their own.",
    [C, I], "All inputs, histories of earlier calls, hash seeds and thread schedules.",
    "A test process samples one hash seed and one order of calls; errors for additional properties and the message of unsupported df-filter arguments came in random order.",
    [PD, MP, UT, "pandalone/components.py", "pandalone/xleash/"], [("errors", PD + ":_rule_additionalProperties"), ("filters", "pandalone/xleash/_pandas_filters.py:_df_filter")],
    ["outcome of each call, as text, from processes of different hash seeds and orders"],
    technique="runtime monitor: differential between processes with different hash seeds, call orders, repetition and threads (switches injected between lines of the code)",
    note="Calls that read a cache of open workbooks are under P09; unordered collections handed in by the caller are not generated.")

prop(
    "P41", "Bumping the version replaces it everywhere, and commits only what passed",
    "The release script, given a new version, replaces each occurrence of the current version and date in the version-file and the README with the new version and the time of the run, and changes nothing else in them or in any other file, telling for each file how often it replaced each; then the doc-tests run, once, on these files. "
    "Only if asked to commit or tag, and the tests pass, both files are added and committed with a message telling the old and the new version (less its leading components they share), and, for a tag, a signed tag of the new version is made with the given message, each only if the previous command succeeded. "
    "Without a version it prints the current one and its date; a dry-run changes nothing and tells those commands; the same version again, unless forced, and a version-file without version or date are refused with nothing changed. The exit-code tells success.",
    [C, I], "All version and README texts, versions, options, and failures of tests or of any git command.",
    "The script has no tests.",
    ["bin/bumpver.py"], [("script", "bin/bumpver.py:bumpver, replace_substrings, do_commit, do_tag, main")],
    ["files before and after", "log of doc-tests and git commands"],
    technique="runtime monitor: file-tree differential and event log of a recording git and doc-tests, around the real script run in scratch projects with injected failures",
    note="The working git repository is never touched: git is a recording stand-in on the search path. Versions have at least two components, so that they do not occur within dates.")
