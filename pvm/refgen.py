"""Composes xl-refs out of known parts, in all the spellings the grammar documents."""
import json

from pandalone.xleash import Cell, Edge

from .xl import MOVES, col_letters, randcase

URLS = ["wb.xlsx", "../some dir/wb.xls", "/abs/path/wb.xlsm", "file:///tmp/x.xlsx", "http://host.org/d/x.xls",
        "https://u@host:8080/a/b.xlsx?q=1&z=2", "wörk-βοοκ.xls", "no_ext", "a=b.xls;v=1", "./x.y.z.xlsx"]
SHEETS = ["Sheet1", "1", "0", "my sheet", "Φύλλο", "a:b", "A1", "R1C1", "x(y)", "{sh}", "a#b", "it's", "..", "^_", "sh ",
          "[s]", "a,b;c", "10%", "it’s", "‘x’ «y»", "a–b…", "x" * 31, "L", ":", "A1:B2", '"q"', "'my sheet'", "$x$", "'"]
WORDS = ["", "a", "foo", "Z9", "a b", "lo:ng", "#", "it's", "é", "\\", 'q"q', "{}", "A1", "x\ny", "[", "::", "LURD", "@", "(", "$&%", "it’s", "‘q’", "«g»", "– …", "´`ʼ", "＂", "\u2028", "日本", "a\tb", "&amp;"]
ENCASE = "/\\\"$%&"


def json_value(rng, depth=2):
    k = rng.randrange(9 if depth else 6)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.choice([0, 1, -1, 7, 10 ** 12, rng.randrange(-99, 99)])
    if k == 3:
        return rng.choice([0.5, -2.25, 1e30, 1e-7, rng.randrange(99) / 8 + 0.0625])
    if k in (4, 5):
        return rng.choice(WORDS)
    if k == 6:
        return [json_value(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(WORDS): json_value(rng, depth - 1) for _ in range(rng.randrange(4))}


def dumps(rng, v):
    if rng.random() < 0.15:
        return json.dumps(v, ensure_ascii=False, indent=rng.choice([0, 2, "\t"]))
    return json.dumps(v, ensure_ascii=rng.random() < 0.5,
                      separators=rng.choice([(",", ":"), (", ", ": "), (" , ", " : ")]))


def coord_a1(rng, second):
    sp = "^_." if second else "^_"
    col = rng.choice(sp) if rng.random() < 0.3 else col_letters(rng.choice([rng.randrange(30), rng.randrange(800), rng.randrange(16384)]))
    row = rng.choice(sp) if rng.random() < 0.3 else str(rng.choice([rng.randrange(1, 12), rng.randrange(1, 1048577)]))
    return row, col


def coord_rc(rng):
    def one():
        if rng.random() < 0.35:
            return rng.choice("^_.")
        return ("-" if rng.random() < 0.3 else "") + str(rng.choice([rng.randrange(1, 12), rng.randrange(1, 20000)]))
    return one(), one()


def edge(rng, second):
    """-> (text, Edge expected)"""
    if rng.random() < 0.55:
        row, col = coord_a1(rng, second)
        s = col + row
    else:
        row, col = coord_rc(rng)
        s = "R%sC%s" % (row, col)
    mov = mod = None
    if rng.random() < 0.45:
        mov = rng.choice(MOVES)
        mod = rng.choice([None, None, "+", "?"])
        s += "(%s%s)" % (mov, mod or "")
    return s, Edge(Cell(row, col), mov, mod)


def exp_moves(rng):
    s = ""
    for _ in range(rng.randint(1, 6)):
        s += rng.choice("LURD")
        if rng.random() < 0.4:
            s += rng.choice(["?", "1", "2", "15", "9"])
    return s


def filter_spec(rng):
    """-> (json value, expected opts, expected call-triple or None)"""
    func = rng.choice(["pipe", "f", "my.filter", "pyeval", "x y", "é"])
    args = [json_value(rng) for _ in range(rng.randrange(3))]
    kwds = {k: json_value(rng) for k in rng.sample(["a", "b", "k1", "x y", "func", "args"], rng.randrange(3))}
    k = rng.randrange(5)
    if k == 0:
        return func, None, (func, [], {})
    if k == 1:
        parts = rng.choice([[], [args], [kwds], [args, kwds], [kwds, args], [None, args], [kwds, None], [None], [None, None]])
        return [func] + parts, None, (func, args if args in parts and any(p is args for p in parts) else [],
                                      kwds if any(p is kwds for p in parts) else {})
    opts = None if rng.random() < 0.4 else {o: json_value(rng, 1) for o in rng.sample(["lax", "verbose", "o1", "o2"], rng.randrange(3))}
    if k == 2:
        spec = {}
        call = None
        if opts is None:
            opts = {"o": 1}
    else:
        spec, call = {"func": func}, [func, [], {}]
        if rng.random() < 0.6:
            spec["args"] = rng.choice([args, args, None])
            call[1] = spec["args"] or []
        if rng.random() < 0.6:
            spec["kwds"] = rng.choice([kwds, kwds, None])
            call[2] = spec["kwds"] or {}
        call = tuple(call)
    if opts is not None or rng.random() < 0.2:
        spec["opts"] = opts
    items = list(spec.items())
    rng.shuffle(items)
    return dict(items), opts, call


TOP = Edge(Cell("^", "^"))
BOT = Edge(Cell("_", "_"))


def compose(rng):
    """-> (ref text, expected parts), the plain canonical spelling"""
    url = rng.choice(URLS) if rng.random() < 0.5 else None
    sheet = rng.choice(SHEETS) if rng.random() < 0.5 else None
    st = edge(rng, False) if rng.random() < 0.8 else None
    colon = rng.random() < 0.7
    nd = edge(rng, True) if colon and rng.random() < 0.75 else None
    exp = exp_moves(rng) if colon and rng.random() < 0.4 else None
    filt = filter_spec(rng) if rng.random() < 0.5 else None
    if not (sheet is not None or st or colon or filt):
        colon = True
    core = (st[0] if st else "") + (":" if colon else "") + (nd[0] if nd else "") + (":" + exp if exp else "")
    exp_st, exp_nd = (st[1] if st else None), (nd[1] if nd else None)
    if colon or (st is None and nd is None):
        exp_st, exp_nd = exp_st or TOP, exp_nd or BOT
    parts = dict(url_file=url, sh_name=sheet, st_edge=exp_st, nd_edge=exp_nd, exp_moves=exp,
                 opts=filt[1] if filt else None, call=filt[2] if filt else None)
    pieces = dict(url=url or "", sheet=sheet + "!" if sheet is not None else rng.choice(["", "", "!"]) if core else "",
                  core=core, filt=dumps(rng, filt[0]) if filt else None)
    return pieces, parts


def spell(rng, pieces, case=False, blanks=False, curly=False, encase=False):
    core = randcase(rng, pieces["core"]) if case else pieces["core"]
    filt = pieces["filt"]
    s = pieces["url"] + "#" + (" " * rng.randrange(3) if blanks else "") + pieces["sheet"] + core
    if filt is not None:
        if curly:
            filt = "".join(rng.choice("“”") if ch == '"' and rng.random() < 0.7 else ch for ch in filt)
        s += ":" + (" " * rng.randrange(3) if blanks else "") + filt
    if encase:
        q = rng.choice(ENCASE)
        s = rng.choice(["", " "]) + q + s + q + rng.choice(["", " "])
    return s
