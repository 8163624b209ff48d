import json
import re

from pandalone.xleash import parse_xlref

from pvm import refgen, xl

RULE = ("corruptions (1-3 random edits) of composed refs, hand-listed bad forms, and random strings over the xl-ref alphabet; verdict of "
        "an independent recursive-descent recognizer: ok/syntax/value; non-trivial = rejected strings, keyed by verdict and string")
FLOORS = {"verdict:syntax": 3000, "verdict:value": 300, "verdict:ok": 500, "lasso-rejected": 500}

MOVS = {"L", "U", "R", "D", "LD", "LU", "UL", "UR", "RU", "RD", "DL", "DR"}
LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def digits(s, i):
    j = i
    while j < len(s) and s[j] in "0123456789":
        j += 1
    return j


def p_num_or(s, i, special, sign):
    """ends of a coordinate: [-]digits not starting with 0 (longest first), or a special char"""
    if i < len(s) and s[i] in special:
        yield i + 1
        return
    k = i + 1 if sign and i < len(s) and s[i] == "-" else i
    if k < len(s) and s[k] in "123456789":
        j = digits(s, k)
        while j > k:
            yield j
            j -= 1


def p_edge(s, i, second):
    sp = "_^." if second else "_^"
    u = s.upper()
    # A1
    if i < len(s) and s[i] in sp:
        cols = [i + 1]
    else:
        j = i
        while j < len(s) and u[j] in LET and s[j].isascii():
            j += 1
        cols = range(j, i, -1)
    for c in cols:
        for r in p_num_or(s, c, sp, False):
            yield from p_moves(s, r)
    # RC
    if i < len(s) and u[i] == "R":
        for r in p_num_or(s, i + 1, "_^.", True):
            if r < len(s) and u[r] == "C":
                for c in p_num_or(s, r + 1, "_^.", True):
                    yield from p_moves(s, c)


def p_moves(s, i):
    if i < len(s) and s[i] == "(":
        j = s.find(")", i)
        if j > 0:
            body = s[i + 1:j].upper()
            if body[-1:] in ("+", "?") and body[:-1] in MOVS or body in MOVS:
                yield j + 1
    yield i


def p_rest(s, i):
    """[:filter] end  -> filter-text or ''"""
    if i == len(s):
        yield ""
    elif s[i] == ":":
        j = i + 1
        while j < len(s) and s[j].isspace():
            j += 1
        if j < len(s) and s[j] in '{"[':
            yield s[j:]


def p_colon(s, i):
    if i < len(s) and s[i] == ":":
        for nd in list(p_edge(s, i + 1, True)) + [i + 1]:
            if nd < len(s) and s[nd] == ":":
                j = nd + 1
                while j < len(s) and s[j].upper() in "LURD?123456789" and s[j].isascii():
                    j += 1
                for e in range(j, nd + 1, -1):
                    yield from p_rest(s, e)
            yield from p_rest(s, nd)
    yield from p_rest(s, i)


def p_body(s):
    i = 0
    while i < len(s) and s[i].isspace():
        i += 1
    for st in list(p_edge(s, i, False)) + [i]:
        yield from p_colon(s, st)


def recognize(frag):
    """-> filter-text ('' if none) or None if outside of the grammar"""
    k = frag.find("!")
    tries = ([frag[k + 1:]] if k >= 0 else [])
    for t in tries:
        if t[:1].isspace():  # no blanks after '!'
            continue
        for f in p_body(t):
            return f
    for f in p_body(frag):
        return f
    return None


def good_call(js):
    if isinstance(js, str):
        return True
    if isinstance(js, list):
        rest = js[1:]
        return (isinstance(js[0], str) and len(js) <= 3 and all(x is None or isinstance(x, (list, dict)) for x in rest)
                and sum(isinstance(x, list) for x in rest) < 2 and sum(isinstance(x, dict) for x in rest) < 2)
    if isinstance(js, dict):
        return (set(js) <= {"func", "args", "kwds"} and isinstance(js.get("func"), str)
                and (js.get("args") is None or isinstance(js["args"], list))
                and (js.get("kwds") is None or isinstance(js["kwds"], dict)))
    return False


def verdict_plain(ref):
    ref = ref.replace("“", '"').replace("”", '"')
    if "#" not in ref or ref.endswith("#") and ref.count("#") == 1:
        return "syntax"
    filt = recognize(ref[ref.index("#") + 1:])
    if filt is None:
        return "syntax"
    if not filt:
        return "ok"
    try:
        js = json.loads(filt)
    except ValueError:
        return "value"
    if js in ("", []):
        return "any"
    if isinstance(js, dict):
        opts = js.pop("opts", None)
        if opts is not None and not isinstance(opts, dict):
            return "value"
        if not js:
            return "ok"
    return "ok" if good_call(js) else "value"


def verdict(ref):
    v = verdict_plain(ref)
    if v in ("syntax", "value"):
        m = re.match(r'^\s*([/\\"$%&])(.+)\1\s*$', ref, re.S)
        if m:
            v2 = verdict_plain(m.group(2))
            return v2 if v == "syntax" or v2 in ("ok", "any") or v == v2 else "error"
    return v


def observe(fn):
    try:
        fn()
    except SyntaxError:
        return "syntax"
    except ValueError:
        return "value"
    except Exception as ex:
        return "%s(%s)" % (type(ex).__name__, ex)
    return "ok"


SHEET = xl.mem_sheet([[1, 2, 3], [4, 5, 6], [7, 8, 9]])


LOOKALIKE = {"K": "\u212a", "S": "\u017f", "I": "\u0131\u0130", "A": "\uff21\u0391", "R": "\uff32", "C": "\u0421", "1": "\u0661\uff11\u00b9", "2": "\u0662\uff12\u00b2", "9": "\u0669",
             "0": "\u0660\uff10", ":": "\uff1a", "(": "\uff08", "^": "\u02c6", "_": "\uff3f", ".": "\u2024", "-": "\u2212", "U": "\uff35"}


def w_lookalike(rng, mon, i):
    """Characters which look or fold like those of the grammar."""
    ref = rng.choice(["#", "#s!"]) + rng.choice(["A1", "K12", "SI9", "R1C2", "R12C^", "AK20", "IS_", "^^", "R-1C-2"]) + rng.choice(["", "(U)", "(RU+)"]) + rng.choice(["", ":", ":K2", ":R2C12", ":..(UR)"])
    for _ in range(rng.choice([1, 1, 2])):
        p = rng.randrange(1, len(ref))
        if ref[p].isdigit() and rng.random() < 0.5:
            ref = ref[:p + 1] + rng.choice(LOOKALIKE[rng.choice("12")]) + ref[p + 1:]
        elif ref[p].upper() in LOOKALIKE:
            ref = ref[:p] + rng.choice(LOOKALIKE[ref[p].upper()]) + ref[p + 1:]
    if not ref.isascii():
        mon.ev("lookalike")
        judge(rng, mon, ref)


def judge(rng, mon, ref):
    if "//[" in ref or "//" in ref.split("#")[0] and "[" in ref.split("#")[0]:
        return
    mon.note("ref=", ref)
    v = verdict(ref)
    mon.ev("verdict:" + v)
    if v == "any":
        return
    got = observe(lambda: parse_xlref(ref))
    if v == "error":
        mon.check(got in ("syntax", "value"), "parsing %r: got %s, expected an error", ref, got)
        return
    mon.check(got == v, "parsing %r: got %s, expected %s", ref, got, v)
    if v != "ok":
        mon.key(v, ref)
        if rng.random() < 0.3:
            got = observe(lambda: xl.lasso(ref, SHEET))
            mon.ev("lasso-rejected")
            mon.check(got == v, "lassoing %r: got %s, expected %s", ref, got, v)


ALPHA = "#!:::ABRCLURDrcld1902_^^..((+?-)){}[]\"\", '/\\$xyz"


def w_edits(rng, mon, i):
    pieces, _ = refgen.compose(rng)
    if rng.random() < 0.5:
        pieces = dict(pieces, filt=None)
    ref = refgen.spell(rng, pieces, case=rng.random() < 0.3, encase=rng.random() < 0.15)
    if "\n" in ref:
        return
    k = ref.find("#")
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = rng.randrange(k, len(ref) + 1) if rng.random() < 0.9 else rng.randrange(len(ref) + 1)
        op = rng.randrange(5)
        if op == 0:
            ref = ref[:p] + rng.choice(ALPHA) + ref[p:]
        elif op == 1:
            ref = ref[:p] + ref[p + 1:]
        elif op == 2:
            ref = ref[:p] + rng.choice(ALPHA) + ref[p + 1:]
        elif op == 3 and p + 1 < len(ref):
            ref = ref[:p] + ref[p + 1] + ref[p] + ref[p + 2:]
        else:
            ref = ref[:p] + ref[p:p + rng.randint(1, 4)] * 2 + ref[p + 4:]
    judge(rng, mon, ref)


BAD = ["A1:B2", "", "#", "wb.xls", "#A0", "#A-1", "#A1:B0", "#A1:B-2", "#.1", "#A.", "#.1:B2", "#A1(LR)", "#A1(RL)", "#A1(UD)", "#A1(DU)",
       "#A1(LL)", "#A1(LUR)", "#A1()", "#A1(+)", "#A1(X)", "#A1(L-)", "#A1(L++)", "#A1(L", "#A1 L)", "#A1:B2:", "#A1::", "#A1B2", "#A1;B2",
       "#A1:B2:X", "#A1:B2:L0", "#A1:B2:LURD:", "#a!b!A1", "#R0C1", "#R1C0", "#R--1C1", "#R1", "#C1R1", "#R1C", "#1A", "#A1 ", "#A 1", "#A1:B2 ",
       "#A1:B2:LURD:foo", "#A1:B2:1", "#A1,B2", "#A1:B2:{", "#A1:[", '#A1:"', "#A1:{'a'}", "#A1:[1]", '#A1:["a",1]', '#A1:["a",[],[]]',
       '#A1:["a",{},{}]', '#A1:["a",[],{},null]', '#A1:{"func":1}', '#A1:{"func":"a","x":1}', '#A1:{"args":[]}', '#A1:{"opts":1}',
       '#A1:{"opts":[]}', '#A1:{"func":"a","args":{}}', '#A1:{"func":"a","kwds":[]}', '#A1:{"opts":{},"kwds":{}}', "#A1(l+", "#:LU", "#::0",
       "#A1(D):..(R)(U)", "#A1:B2:L(U)", "#A1:B2(", "#A1:B2:LURD{}", "#A1{}", "#A1 :B2", "#^", "#_", "#^:", "#..", "#..:A1", "#A1:.", "#RC"]


def w_listed(rng, mon, i):
    judge(rng, mon, BAD[i] if i < len(BAD) else " " + BAD[i - len(BAD)])


def w_random(rng, mon, i):
    n = rng.randint(0, 14)
    ref = rng.choice(["", "", "wb.xls"]) + rng.choice(["#", "#", "#A1", "#A1:", "#s!", "#R1C1(", "#A1:B2:", "#:"]) + "".join(rng.choice(ALPHA) for _ in range(n))
    if rng.random() < 0.1:
        ref = ref.replace("#", "", 1)
    judge(rng, mon, ref)


def w_filters(rng, mon, i):
    """Arbitrary JSON (and broken JSON) as filters: wrong shapes are ValueErrors."""
    js = refgen.json_value(rng, 3)
    if rng.random() < 0.6:
        js = rng.choice([lambda: [rng.choice(["f", 1, None])] + [refgen.json_value(rng, 1) for _ in range(rng.randrange(4))],
                         lambda: {k: refgen.json_value(rng, 1) for k in rng.sample(["func", "args", "kwds", "opts", "lax"], rng.randint(1, 4))},
                         lambda: dict({k: refgen.json_value(rng, 1) for k in rng.sample(["args", "kwds", "opts"], rng.randint(0, 3))}, func="f")])()
    s = refgen.dumps(rng, js)
    if rng.random() < 0.2 and s:
        p = rng.randrange(len(s))
        s = s[:p] + s[p + 1:]
    judge(rng, mon, rng.choice(["#A1:", "#:", "#A1:B2:", "#A1::LU:", "#sh!"]) + rng.choice(["", ":"]) + s)


WORKLOADS = [("lookalike", w_lookalike, 1500, 40000), ("listed", w_listed, 2 * len(BAD), 2 * len(BAD)), ("edits", w_edits, 10000, 250000), ("random", w_random, 8000, 250000),
             ("filters", w_filters, 3000, 80000)]
