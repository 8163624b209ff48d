from pandalone import xleash
from pandalone.xleash import parse_xlref

from pvm import refgen, xl

RULE = ("refs composed at random from every optional part x spelling (A1/RC, letter-case, blanks, curly quotes, encasing); "
        "non-trivial = has at least one edge, filter or sheet; the oracle is the composition itself")
FLOORS = {"parsed": 3000, "variant:encase": 500, "variant:curly": 300, "variant:case": 500, "captured": 500}


def norm(parsed):
    d = dict(parsed)
    d.pop("xl_ref", None)
    if d["exp_moves"] is not None:
        d["exp_moves"] = d["exp_moves"].upper()
    return d


def check_parts(mon, ref, got, parts, encased=False):
    for k in ("sh_name", "st_edge", "nd_edge", "opts", "url_file"):
        mon.eq(got[k], parts[k], "%s of parsed %r" % (k, ref))
    mon.eq((got["exp_moves"] or "").upper() or None, parts["exp_moves"], "expansion-moves of parsed %r" % ref)
    call = got["call_spec"]
    mon.eq(None if call is None else tuple(call), parts["call"], "call-spec of parsed %r" % ref)
    mon.eq(sorted(got), sorted(["sh_name", "st_edge", "nd_edge", "opts", "url_file", "exp_moves", "call_spec", "xl_ref"]), "fields")


def w_compose(rng, mon, i):
    pieces, parts = refgen.compose(rng)
    flags = dict(case=rng.random() < 0.4, blanks=rng.random() < 0.3, curly=rng.random() < 0.4, encase=rng.random() < 0.35)
    ref = refgen.spell(rng, pieces, **flags)
    mon.note("ref=", ref)
    got = parse_xlref(ref)
    mon.ev("parsed")
    for k, v in flags.items():
        if v and not (k == "curly" and not pieces["filt"]):
            mon.ev("variant:" + k)
    check_parts(mon, ref, got, parts)
    mon.key(sorted(flags.items()), [k for k, v in parts.items() if v], parts["st_edge"], parts["nd_edge"], parts["exp_moves"])


def w_capture(rng, mon, i):
    """Spellings that parse alike also capture alike, through the public lasso()."""
    h, w = rng.randint(1, 6), rng.randint(1, 6)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    sheet = xl.mem_sheet(rows)

    def e(second):
        c = ("%s%s" % (rng.choice("^_" + (".." if second else "")) if rng.random() < 0.5 else xl.col_letters(rng.randrange(w + 1)),
                       rng.choice("^_" + (".." if second else "")) if rng.random() < 0.5 else rng.randint(1, h + 1)))
        if rng.random() < 0.5:
            c += "(%s%s)" % (rng.choice(xl.MOVES), rng.choice(["", "+", "?"]))
        return c

    core = rng.choice([e(False), "", e(False)]) + ":" + rng.choice([e(True), e(True), ""]) + rng.choice(["", ":" + refgen.exp_moves(rng)])
    filt = rng.choice([None, '["redim",{"table":1}]', '{"opts":{"foo":1}}', '"tolist"'])
    pieces = dict(url="", sheet="", core=core, filt=filt)
    mon.note("core=", core, "sheet=", xl.draw(rows))
    avail = dict(xleash.installed_filters, tolist={"func": lambda r, l: l._replace(values=[l.values])})
    base = refgen.spell(rng, pieces)
    ref0 = xl.lasso(base, sheet, filters=avail)
    for v in ("case", "curly", "encase", "blanks"):
        ref = refgen.spell(rng, pieces, **{v: True})
        got = xl.lasso(ref, sheet, filters=avail)
        mon.ev("captured")
        mon.eq(got.values, ref0.values, "values of %r vs %r" % (ref, base))
        mon.eq((got.st, got.nd, got.st_edge, got.nd_edge), (ref0.st, ref0.nd, ref0.st_edge, ref0.nd_edge), "rect of %r vs %r" % (ref, base))
        mon.eq(dict(got.opts), dict(ref0.opts), "opts")
    mon.key("cap", core, xl.draw(rows))


WORKLOADS = [("compose", w_compose, 12000, 250000), ("capture", w_capture, 800, 15000)]
