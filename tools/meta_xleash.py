# Property texts, part 1: the xl-ref language, capturing, IO, filters.
I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"
XL = "pandalone/xleash/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level="exploration",
         technique="", note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, level=level, technique=technique,
                  note=note, state=state))


prop(
    "P01", "Parsing an xl-ref recovers exactly the parts it was written with",
    "For every reference composed by the documented grammar - optional workbook url, '#', optional sheet, edges in A1 or RC "
    "form with optional moves and modifier, expansions, JSON filter - parsing returns exactly the url, sheet, edge "
    "coordinates and moves (upper-cased), modifiers, expansions, options and filter call it was composed from. "
    "Letter-case of coordinates and moves, typographic double-quotes in the filter, and encasing the whole reference in a pair of one of / \\ \" $ % & do "
    "not change what is parsed or what is captured. A missing edge around a colon, or no edges at all, mean the top-left "
    "(resp. bottom-right) full cell of the sheet, while a lone 1st edge leaves the 2nd edge unset.",
    [I], "All grammar-composed references, over all combinations of optional parts, spellings and decorations.",
    "The tests list a few hundred literal refs; the product of optional parts, letter-case, encasing and filters is unbounded (encased refs passed parse tests but crashed every lasso).",
    [XL + "_parse.py", XL + "_lasso.py"],
    [("regular xl-ref regex and edge building", XL + "_parse.py:parse_xlref_fragment"), ("encased refs", XL + "_parse.py:parse_xlref")],
    ["xleash.parse_xlref", "xleash.lasso(return_lasso=True)"],
    technique="runtime monitor: generator-composed refs, part-by-part oracle on the parser's return events",
    note="Seeded random composition from the grammar; oracle is the composition itself. Urls restricted to ordinary paths/urls; sheet names without '!' and filters without '!'.")

prop(
    "P02", "Malformed xl-refs are rejected with the right kind of error",
    "A string outside the documented xl-ref grammar (no '#' fragment, missing or doubled separators, zero or signed A1 rows, "
    "a dependent '.' coordinate in an A1 1st edge, contradicting or unknown moves, unknown modifiers, stray characters) raises SyntaxError both from parsing and from lassoing, never another error and "
    "never a partial result. A string inside the grammar whose filter is not valid JSON, whose opts are not an object or "
    "whose filter is not a valid call raises ValueError and not SyntaxError.",
    [I], "All single- and multi-edit corruptions of valid references, and random strings over the xl-ref alphabet.",
    "Rejection is a statement about all non-members of the language; the tests hold some 30 bad literals.",
    [XL + "_parse.py", XL + "_lasso.py"],
    [("anchored fragment regex, JSON and call-spec checks", XL + "_parse.py:parse_xlref_fragment, parse_call_spec")],
    ["xleash.parse_xlref", "xleash.lasso"],
    technique="runtime monitor: differential accept/reject oracle (independent recursive-descent recognizer) over mutated refs",
    note="The recognizer is hand-written from the documented grammar, sharing no code with the library.")

prop(
    "P03", "All spellings of a filter call invoke the same filter and arguments",
    "A filter given as a JSON string, as a list (function name plus positional list and keyword object, each optional or null, in either order) "
    "or as an object (func/args/kwds, the latter two optional) invokes exactly that named filter, once, with exactly those positional and keyword arguments. "
    "Any other shape - non-string name, two positional or two keyword parts, scalars, unknown or extra fields - raises ValueError and invokes no filter.",
    [I], "All JSON call-specifications, valid in every spelling and corrupted.",
    "Tests check the parsed tuple of a few specs; the equivalence ranges over all argument values and shapes.",
    [XL + "_parse.py", XL + "_lasso.py"],
    [("call-spec parsing", XL + "_parse.py:parse_call_spec"), ("dispatch", XL + "_lasso.py:Ranger.make_call")],
    ["calls received by spy filters installed through available_filters"],
    technique="runtime monitor: spy filters log invocations; metamorphic equality across spellings",
    note="Invocations are observed inside real lassos over the public API. Keyword 'lax' is reserved and excluded.")

prop(
    "P04", "Cell coordinates resolve to the right cell in A1, RC, negative and special form",
    "Column letters denote the bijective base-26 column number and rows are 1-based, the RC form of a cell denotes the same cell, and "
    "the lassoed (row, col) is the zero-based equivalent; conversion of any zero-based coordinates to A1 and back is the identity. "
    "In RC form -k denotes the k-th row or column counting back from the last one having a full cell, and no cell at all if there are not so many; '^' and '_' denote the first and last row/column having a full cell. "
    "A '.' denotes the corresponding coordinate of the 1st target for the 2nd edge and of the given base cell for the 1st edge (an error if none was given). "
    "A coordinate denoting no row or column, such as zero, is a ValueError.",
    [I], "All rows and columns within excel limits, all sheet occupancies, all mixes of coordinate kinds per edge.",
    "Tests sample a dozen coordinates; e.g. every carry of the letter encoding and every margin/negative mix must agree.",
    [XL + "_capture.py", XL + "io/backend.py"],
    [("coordinate resolution", XL + "_capture.py:_resolve_coord, _col2num, _row2num"), ("margins", XL + "io/backend.py:margin_coords_from_states_matrix")],
    ["xleash.lasso(return_lasso=True).st/.nd", "xleash.coords2Cell", "xleash.margin_coords_from_states_matrix"],
    technique="runtime monitor: reference-model oracle on resolved coordinates, exhaustive over the 16384 excel columns in thorough",
    note="For coordinates counting back past the start, an error or an empty capture are both accepted.")

prop(
    "P05", "Targeting stops on exactly the documented target cell, or captures nothing",
    "From an empty landing cell (also outside the sheet's extent when moving left/up towards it), moves stop on the FIRST full cell met, travelling along the first move's direction and, line after line, along the second; if none is met the capture is empty. "
    "A full landing cell is itself the target unless the modifier is '+' or the edge is a fully dependent 2nd edge without '?': then, for each move, the target goes to the LAST of the contiguous full cells of the landing's own row or column in that direction. "
    "The captured rectangle is spanned by the two targets and reported sorted, top-left before bottom-right, whichever order they were written in.",
    [I], "All sheet occupancies, all landing cells in, on the border of, and beyond the sheet, 12 moves, 3 modifiers, both edges.",
    "Tests use a few hand-drawn matrices; the rule quantifies over all occupancies and landings.",
    [XL + "_capture.py"],
    [("search-opposite / search-same / rule choice", XL + "_capture.py:_target_opposite, _target_same, resolve_capture_rect")],
    ["xleash.lasso(return_lasso=True).st/.nd"],
    technique="runtime monitor: reference walk-the-cells oracle plus transpose/flip metamorphic monitors, exhaustive small sheets in thorough",
    note="Reference model walks cell by cell with no numpy slicing. Modifier on a landing beyond the sheet follows the empty-landing rule.")

prop(
    "P06", "Expansions grow the rectangle exactly while adjacent lines have full cells",
    "Applying an expansion direction adds the line adjacent to that side of the rectangle if and only if that line, within the rectangle's span, contains a full cell; a count repeats its own direction at most that many times, '?' at most once, and uncounted directions repeat in written rounds until a whole round adds nothing. "
    "Expansion always terminates, never shrinks or moves any side other than those named, and never leaves the sheet.",
    [I], "All sheet occupancies, start rectangles and expansion strings (chains, counts, repeated directions).",
    "Tests have some ten fixed cases; termination and the fixed point hold or fail per occupancy.",
    [XL + "_capture.py", XL + "_parse.py"],
    [("expansion loop", XL + "_capture.py:_expand_rect"), ("expansion-moves parsing", XL + "_parse.py:parse_expansion_moves")],
    ["xleash.lasso(return_lasso=True).st/.nd"],
    technique="runtime monitor: reference fixed-point oracle and invariant monitors on rects before/after",
    note="A per-case watchdog turns non-termination into a violation.")

prop(
    "P07", "Captured values are exactly the cells of the captured rectangle",
    "A single edge yields the scalar value of its target cell; two edges (or expansions) yield the list of rows of the captured rectangle, cell by cell in sheet order, empty cells being None, of exactly rectangle size when within the sheet. "
    "A sheet without any cells or a failed targeting yields an empty list. Lassoing never modifies the sheet, so repeating any lasso gives an equal result regardless of what callers or filters did to earlier results.",
    [I, H], "All sheets, rectangles and value types, on in-memory and file-backed sheets, over sequences of lassos with mutated results.",
    "Tests check single reads on two fixed matrices and never re-read after mutation.",
    [XL + "io/backend.py", XL + "io/_xlrd.py", XL + "_lasso.py"],
    [("read_rect", XL + "io/backend.py:ArraySheet.read_rect, " + XL + "io/_xlrd.py:XlrdSheet.read_rect")],
    ["xleash.lasso values", "sheet snapshot before/after"],
    technique="runtime monitor: cell-by-cell oracle, and a frame monitor snapshotting the sheet around every lasso",
    note="Rects beyond the sheet's extent are padded with None by the file backend; in-memory ones may also cut them.")

prop(
    "P08", "Workbook files are read with the values and types that were stored in them",
    "Every cell of a workbook file, of the old (.xls) or new (.xlsx) format, is returned as the value stored (or last calculated by its formula): whole numbers as int, other numbers as float, booleans as bool, text as str, dates as datetime and times of day as time in the workbook's own date system (1900 or 1904), error cells as NaN, and empty cells as None. "
    "Sheets are found by exact name first, then by zero-based index (number, or digits in the reference), the first sheet being the default; listing gives the names of all work-sheets, hidden too, in workbook order, and an unknown sheet is an error. "
    "Rows and columns are reported relative to cell A1, and only cells with values count as full.",
    [I], "All workbook contents over the supported cell types, positions, sheet names and both date systems.",
    "Tests read two fixed fixtures; 1904 workbooks were mis-dated by 4 years with all tests passing.",
    [XL + "io/_xlrd.py", XL + "io/backend.py"],
    [("cell conversion", XL + "io/_xlrd.py:_parse_cell"), ("sheet selection", XL + "io/_xlrd.py:_open_sheet_by_name_or_index")],
    ["xleash.lasso on files written by openpyxl and by an own BIFF8 writer", "SheetsFactory.list_sheetnames"],
    technique="runtime monitor: round-trip oracle against workbooks written by an independent writer (openpyxl), differential with in-memory sheets",
    note="Trusts openpyxl as writer and xlrd as decoder of the container; xlsx only; datetimes compared to the millisecond.")

prop(
    "P09", "A sheets-factory serves one open sheet per id and closes what it drops",
    "A sheet registered or fetched under some workbook and sheet ids is served as the very same object for any of those ids, and backends are asked to open it only when no such id is held. "
    "When another sheet is registered under one of its ids, the old sheet is closed exactly once and is not served under any id afterwards. "
    "Closing the factory (also by leaving its with-block, normally or by an exception) closes every sheet it holds, even when some fail to close, and forgets them all; a sibling fetched through a base sheet is likewise opened once and cached, also after the base was fetched under another id.",
    [H], "All interleavings of fetch, add, sibling-fetch and close over colliding workbook and sheet ids.",
    "A history property: tests run only 2-3 step sequences.",
    [XL + "io/backend.py"],
    [("cache", XL + "io/backend.py:SheetsFactory.add_sheet, fetch_sheet, close")],
    ["open/close/serve event log of instrumented backend and sheets"],
    technique="runtime monitor: event log of instrumented sheets/backend checked online against a cache automaton over random histories",
    note="The automaton is an independent model of the id map.",
    state=[dict(name="cached sheets", meaning="map (workbook id, sheet id) -> open sheet", where=XL + "io/backend.py:SheetsFactory")])

prop(
    "P10", "The highest bidding backend opens a workbook, however its location is spelt",
    "Of all backends, the one with the highest non-null bid - and no other - is asked to open or list a workbook, and if none bids a ValueError is raised; every backend is asked with the same absolute url, and if the winner opens nothing an error is raised. "
    "A local workbook opens with the same contents whether given as relative path, absolute path, non-normalized path or file-url, with spaces or non-ascii letters in its folders, and however long its path is; an http(s) url reaches backends with its scheme and host intact, and a workbook served over http opens with the contents of the file served, while one not served is a ValueError.",
    [C, I], "All bid assignments, including None/negative/zero and errors, and all spellings of local paths.",
    "Tests use one backend and short fixture paths (workbooks with paths beyond 200 characters could not open at all).",
    [XL + "io/backend.py", XL + "io/_xlrd.py", "pandalone/utils.py"],
    [("bidding", XL + "io/backend.py:SimpleSheetsFactory.decide_backend"), ("path to url and back", "pandalone/utils.py:path2url, urlpath2path")],
    ["bid/open events of instrumented backends", "xleash.lasso on real files"],
    technique="runtime monitor: recorded bid/open events vs auction oracle; spelling-equivalence on real files",
    note="Posix only; paths with url-special characters (% # ? ;) or backslashes are outside the statement. Ties between equal highest bids may go to either.")

prop(
    "P11", "A broken plugin never prevents the others from loading and installing",
    "Initializing plugins loads every declared plugin, and only after all have been loaded, invokes once each installer whose plugin loaded; an exception while loading or installing one is contained and leaves all other plugins unaffected. "
    "The recorded stage of each plugin is 0 if it failed to load, 1 if it loaded but has no installer or installing failed, and 2 if installed; no plugins at all is a ValueError. "
    "Initializing again the built-in plugins does not duplicate their backends.",
    [F, C], "All sets of plugins, name orders, and load/install faults of any subset.",
    "No test injects faulty plugins.",
    [XL + "__init__.py", XL + "io/_xlrd.py"],
    [("two-stage init", XL + "__init__.py:_init_plugins")],
    ["load/install event log of fake entry-points", "xleash.io_backends"], level="exploration",
    technique="runtime monitor with fault injection: fake entry-points log load/install events, checked against a two-phase trace specification",
    note="Entry-points are injected through the public working-set; re-invokes the documented init function.")

prop(
    "P12", "Lasso options and context: xl-ref over context over base, without leaks",
    "The options seen by filters and returned with a lasso give, for every key, the value from the reference's own opts if present there, else from the base options (those given to lasso() or make_default_Ranger() being themselves overlaid on the default options); fields written in the reference (url, sheet, edges, expansions, filter) override those given as context, and fields it omits keep the context's value. "
    "The base options object is never modified by any lasso - not even when filters modify the options they see - so that the outcome of a lasso does not depend on the lassos done before it with the same ranger.",
    [H, I], "All base/own option maps, context fields, and sequences of lassos with option-mutating filters.",
    "Tests never give both base options and own options (own opts used to discard all base ones), nor reuse a ranger after mutation.",
    [XL + "_lasso.py"],
    [("merge", XL + "_lasso.py:Ranger._parse_and_merge_with_context, _make_init_Lasso")],
    ["lasso.opts inside spy filters and on results", "base_opts snapshots"],
    technique="runtime monitor: overlay oracle at spy filters, frame monitor on base opts over lasso histories",
    note="Covers flat and nested option values; nested dictionaries are replaced, not merged.")

prop(
    "P13", "Failures while lassoing surface as documented, and lax mode contains them",
    "A failed targeting gives an empty result, or EmptyCaptureException when the no_empty option is set; a workbook or sheet that cannot be opened and a filter that fails or does not exist raise ValueError mentioning the reference's failing part. "
    "With lax (as option, or as keyword of that filter call, the keyword prevailing) a failing or missing filter leaves the values as they were before it (apart from what it had itself changed in place) and later filters of a pipe still run, for every element a call is applied to; verbose mode changes only messages, never the outcome. "
    "Whether it failed or not, a ranger's intermediate lasso holds what its last lasso had found until then. "
    "A factory which lasso() created itself is closed whether it succeeds or fails, and one given by the user is never closed.",
    [F, I], "All failing filters at any pipe position, exceptions of any type, lax/verbose/no_empty settings from each source, failing backends.",
    "Tests cover a couple of failures, none in verbose mode (which crashed on current Pythons, even when lax).",
    [XL + "_lasso.py", XL + "_filter.py"],
    [("containment", XL + "_lasso.py:Ranger.make_call, _resolve_capture_rect, lasso")],
    ["exceptions and values returned by xleash.lasso", "spy filters", "close events"], level="exploration",
    technique="runtime monitor with fault injection: failing filters/backends injected, outcome automaton as oracle",
    note="Faults are exceptions of assorted types raised from filters and backends.")

prop(
    "P14", "Bulk filters transform values faithfully: pipe composes, redim only reshapes",
    "Piping filters equals applying them one after another in the given order, with each one seeing the result of its predecessor. "
    "Redim picks the dimension given for the captured shape (scalar, single cell, row, column, table), leaves values untouched if none is given, and otherwise returns the very same elements with their types in row-major order (column-major if transposing), nested to the requested dimension by adding outer or dropping trivial dimensions, or flattened if that is impossible. "
    "The numpy, dict, odict, sorted and py filters give what the corresponding Python constructors, sort or expression give on the captured values.",
    [I], "All captured shapes, mixed value types, dimension/transpose requests and pipelines.",
    "Tests use homogeneous or None-laden values (mixed tables had numbers turned to strings) and few pipelines.",
    [XL + "_filter.py"],
    [("redim", XL + "_filter.py:redim_filter, _redim"), ("pipe", XL + "_filter.py:pipe_filter")],
    ["xleash.lasso values", "spy filters between pipe stages"],
    technique="runtime monitor: pure-Python reference reshaper and stage-by-stage composition monitor",
    note="The pandas filters are under P35.")

prop(
    "P15", "Element-wise filters visit exactly the selected elements, once each",
    "Evaluating values element-wise replaces each string element that is a valid Python expression by its value and leaves every other element - and the nesting, of Series and DataFrames too - unchanged; with eval_all the first failing string is an error, without it failing strings stay as they are. "
    "In dictionaries only keys that are included (or all, if none named) and not excluded are visited, depth limits how many nesting levels are dived into (0 visits nothing, negative means no limit), and the sub-filters apply to every processed element and to no other.",
    [I], "All nestings of lists, dictionaries, Series and DataFrames with mixed elements, all include/exclude/depth/eval_all choices.",
    "Tests use one or two nested values per feature.",
    [XL + "_filter.py"],
    [("dive", XL + "_filter.py:run_filter_elementwise, pyeval_filter")],
    ["values returned by the pyeval filter", "elements seen by spy sub-filters"],
    technique="runtime monitor: reference recursive walker; spy sub-filters log visited elements (exactly-once)",
    note="Expressions drawn from a safe arithmetic subset; non-expressions are syntactically invalid or undefined names.")

prop(
    "P16", "Recursive lassoing replaces xl-ref strings, and only them, by their captures",
    "The recurse filter replaces every string element that is an xl-ref by what lassoing it gives, relative to the sheet it was found in when no workbook is named, with its '.' coordinates based on the very cell of the captured list-of-rows holding it; results replaced by nested references' own filters are expanded too, and any other value is left untouched. "
    "A reference that fails with anything but a syntax error makes the whole lasso fail with ValueError; sub-filters apply to replaced elements only.",
    [I], "All networks of sheets whose cells hold references (absolute, relative, sibling-sheet, chained), plain strings and other values.",
    "Tests use one fixture workbook; references relative to their own cell silently used the rectangle's corner.",
    [XL + "_filter.py", XL + "_lasso.py", XL + "io/backend.py"],
    [("recursion", XL + "_filter.py:recursive_filter, run_filter_elementwise")],
    ["values from xleash.lasso", "sheet fetches logged by an instrumented factory"],
    technique="runtime monitor: independent recursive evaluator over generated sheet networks as oracle",
    note="Reference networks are acyclic; base-cell claim is for untransformed list-of-rows captures.")
