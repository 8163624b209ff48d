import datetime
import itertools
import json
from collections import OrderedDict

from pandalone import xleash

from pvm import xl

RULE = ("captured scalars/cells/rows/columns/tables of mixed-type cells through redim with all dimension/transpose requests, compared with a reference "
        "reshaper over (shape, flat list); pipes of up to 6 built-in and spy filters compared stage by stage with plain Python; non-trivial = values changed "
        "shape or passed more than one stage, keyed by values and filter")
FLOORS = {"redim": 2700, "up": 1300, "squeeze": 540, "flatten": 490, "transposed": 1100, "untouched": 240, "stage": 2700, "ctor": 900, "py": 560, "exhaustive": 1000}

SHAPES = ["scalar", "cell", "row", "col", "table"]


def rand_value(rng):
    return rng.choice([1, 0, -3, 2.5, 1.0, True, False, "a", "", "1", None, float("nan"), 10 ** 20, datetime.datetime(2020, 1, 2, 3, 4, 5),
                       datetime.date(2000, 2, 29), datetime.time(1, 2), "long text " * 9, "é\n", 1e-300, rng.random(), rng.randrange(10 ** 6)])


def rect(rng, kind, maxdim=5):
    """-> (ref, rows, captured values)"""
    h = rng.randint(2, maxdim) if kind in ("col", "table") else 1
    w = rng.randint(2, maxdim) if kind in ("row", "table") else 1
    ref = "#A1" if kind == "scalar" else "#A1:" + xl.a1(h - 1, w - 1)
    return ref, h, w


# ---- reference reshaper: an array is (shape, flat row-major list) ----------------------

def to_arr(v):
    if not isinstance(v, list):
        return (), [v]
    subs = [to_arr(x) for x in v]
    return (len(v),) + (subs[0][0] if subs else ()), [x for _, f in subs for x in f]


def to_list(shape, flat):
    if not shape:
        return flat[0]
    n = 1
    for d in shape[1:]:
        n *= d
    return [to_list(shape[1:], flat[i * n:(i + 1) * n]) for i in range(shape[0])]


def transposed(shape, flat):
    strides, n = [], 1
    for d in reversed(shape):
        strides.insert(0, n)
        n *= d
    new = shape[::-1]
    return new, [flat[sum(s * k for s, k in zip(strides, ix[::-1]))] for ix in itertools.product(*map(range, new))]


def m_redim(vals, dim, mon=None):
    if dim is None:
        return vals
    shape, flat = to_arr(vals)
    if isinstance(dim, (list, tuple)):
        dim, tr = dim
        if tr:
            shape, flat = transposed(shape, flat)
            if mon:
                mon.ev("transposed")
    if dim is not None:
        if len(shape) < dim:
            shape = (1,) * (dim - len(shape)) + shape
            mon and mon.ev("up")
        elif len(shape) > dim:
            off, triv = len(shape) - dim, sum(d == 1 for d in shape)
            if off > triv:
                shape = (len(flat),)
                mon and mon.ev("flatten")
            else:
                out = []
                for d in shape:
                    if d == 1 and off:
                        off -= 1
                    else:
                        out.append(d)
                shape = tuple(out)
                mon and mon.ev("squeeze")
    return to_list(shape, flat)


def redim_call(rng, kind, dim, noise=True):
    """redim call-spec giving `dim` for that rect kind, anything for the others."""
    dims = {k: rng.choice([None, 0, 1, 2, 3, [1, True], [2, False]]) for k in SHAPES} if noise else dict.fromkeys(SHAPES)
    dims[kind] = dim
    if rng.random() < 0.5:
        n = rng.randint(SHAPES.index(kind) + 1, 5)
        return ["redim", [dims[k] for k in SHAPES[:n]]]
    if rng.random() < 0.3:
        return {"func": "redim", "kwds": dims}
    return ["redim", {k: v for k, v in dims.items() if v is not None or rng.random() < 0.5}]


def w_redim(rng, mon, i):
    kind = SHAPES[i % 5]
    ref, h, w = rect(rng, kind)
    rows = [[rand_value(rng) for _ in range(w)] for _ in range(h)]
    dim = rng.choice([None, 0, 1, 2, 3, 4])
    if rng.random() < 0.5:
        dim = [dim, rng.choice([True, False, True, 1, 0])]
    spec = redim_call(rng, kind, dim)
    vals = rows[0][0] if kind == "scalar" else rows
    full = ref + ":" + json.dumps(spec)
    mon.note("values", vals, "ref", full)
    l = xl.lasso(full, xl.mem_sheet(rows))
    mon.eq(l.values, m_redim(vals, dim, mon), "redim %r of %s %r" % (spec, kind, vals))
    mon.eq((xl.coords_of(l.st), xl.coords_of(l.nd)), ((0, 0), None if kind == "scalar" else (h - 1, w - 1)), "rect after redim")
    mon.ev("redim")
    if dim is None:
        mon.ev("untouched")
    else:
        mon.key("redim", kind, h, w, repr(dim), repr(rows))


def w_redim_grid(rng, mon, i):
    """Every shape x dimension x transpose x preceding shape, small sizes."""
    grid = [(k, d, t, pre) for k in SHAPES for d in (None, 0, 1, 2, 3) for t in (None, True, False) for pre in (None, 1, 3, [2, True], 0)]
    kind, d, t, pre = grid[i % len(grid)]
    ref, h, w = rect(rng, kind, 2 + i // len(grid) % 3)
    rows = [[(r + 1) * 100 + c if (r + c) % 3 else "%s.%s" % (r, c) for c in range(w)] for r in range(h)]
    vals = rows[0][0] if kind == "scalar" else rows
    dim = d if t is None else [d, t]
    pipe = ["pipe", [redim_call(rng, kind, pre), redim_call(rng, kind, dim)]]
    full = ref + ":" + json.dumps(pipe)
    mon.note("values", vals, "ref", full)
    got = xl.lasso(full, xl.mem_sheet(rows)).values
    mon.eq(got, m_redim(m_redim(vals, pre), dim, mon), "%r of %s %r" % (pipe, kind, vals))
    mon.ev("exhaustive")
    mon.key("grid", grid[i % len(grid)], h, w)


# ---- pipes -----------------------------------------------------------------------------

PY = [  # (expression, function of the values)
    ("[lasso.values, 1]", lambda v: [v, 1]),
    ("lasso._replace(values={'v': lasso.values})", lambda v: {"v": v}),
    ("str(lasso.values)", lambda v: str(v)),
    ("a = lasso.values\nb = [a]\nb + [2]", lambda v: [v, 2]),
    ("xleash.Lasso(values=[lasso.values], st=lasso.st, nd=lasso.nd)", lambda v: [v]),
    ("(lasso.values, None)", lambda v: (v, None)),
    ("[x for x in [lasso.values, 'é']]", lambda v: [v, "é"]),
]


def w_pipe(rng, mon, i):
    import numpy as np

    kind = rng.choice(SHAPES)
    ref, h, w = rect(rng, kind, 4)
    rows = [[rand_value(rng) for _ in range(w)] for _ in range(h)]
    vals = rows[0][0] if kind == "scalar" else [r[:] for r in rows]
    log, exp_log, opts_seen = [], [], []

    def tap(ranger, lasso, n):
        log.append((n, lasso.values))
        opts_seen.append(dict(lasso.opts))
        return lasso

    def wrap(ranger, lasso, x, key="k"):
        return lasso._replace(values=[x, key, lasso.values])

    fs = dict(xleash.installed_filters, tap={"func": tap}, wrap={"func": wrap})
    stages, cur, reshaped = [], vals, True
    for n in range(rng.randint(1, 6)):
        k = rng.choice(["tap", "wrap", "py", "redim", "nest"])
        if k == "redim" and not reshaped:
            k = "tap"
        if k == "tap":
            stages.append(["tap", [n]])
            exp_log.append((n, cur))
        elif k == "wrap":
            x, key = rng.choice([1, "s", None, [1]]), rng.choice(["k", "z"])
            stages.append(["wrap", [x], {"key": key}] if rng.random() < 0.7 else {"func": "wrap", "args": [x], "kwds": {"key": key}})
            cur, reshaped = [x, key, cur], False
        elif k == "py":
            expr, f = rng.choice(PY)
            stages.append(["py", [expr]])
            cur, reshaped = f(cur), False
            mon.ev("py")
        elif k == "redim":
            dim = rng.choice([0, 1, 2, 3, [1, True], [2, True], None])
            stages.append(redim_call(rng, kind, dim))
            cur = m_redim(cur, dim)
        else:
            stages.append(["pipe", [["tap", [n]], ["wrap", ["in"]]]])
            exp_log.append((n, cur))
            cur, reshaped = ["in", "k", cur], False
    last = rng.choice([None, None, "numpy"])
    opts = {"o": [1]}
    full = ref + ":" + json.dumps({"func": "pipe", "args": stages, "opts": opts})
    mon.note("values", vals, "ref", full)
    l = xl.lasso(full, xl.mem_sheet(rows), fs, {"b": 2})
    mon.eq(l.values, cur, "values of %r over %r" % (full, vals))
    mon.eq(log, exp_log, "values seen between the stages of %r over %r" % (full, vals))
    mon.check(all((o.get("o"), o.get("b")) == ([1], 2) for o in opts_seen + [dict(l.opts)]), "options not kept through %r: %r", full, opts_seen)
    mon.eq(xl.coords_of(l.st), (0, 0), "st")
    # Piping equals applying one after the other
    step = xl.lasso(ref, xl.mem_sheet(rows), fs, {"b": 2})
    ranger = xleash.Ranger(xl.NoFactory(), base_opts={"b": 2, "o": [1]}, available_filters=fs)
    for s in stages:
        step = xleash.installed_filters["pipe"]["func"](ranger, step, s)
    mon.eq(step.values, l.values, "one-by-one values of %r over %r" % (stages, vals))
    mon.ev("stage", len(stages))
    mon.key("pipe", full, repr(vals))


def run(fn):
    try:
        return ("ok", fn())
    except Exception as ex:
        return ("err", type(ex).__name__)


def w_ctor(rng, mon, i):
    """numpy, dict, odict, sorted: what Python gives"""
    import numpy as np

    which = rng.choice(["numpy", "dict", "odict", "sorted"])
    kind = rng.choice(SHAPES[1:])
    ref, h, w = rect(rng, kind, 5)
    if which in ("dict", "odict") and rng.random() < 0.8:
        kind, h, w = "table", rng.randint(2, 6), 2
        ref = "#A1:" + xl.a1(h - 1, 1)
    gens = [rand_value, lambda r: r.randrange(9), lambda r: r.choice("abcde"), lambda r: r.random()]
    gen = rng.choice(gens)
    rows = [[gen(rng) for _ in range(w)] for _ in range(h)]
    args, kwds, pre = [], {}, []
    vals = [r[:] for r in rows]
    if which == "numpy":
        if rng.random() < 0.5:
            args = [rng.choice(["object", "float", "str", "int64"])]
        elif rng.random() < 0.5:
            kwds = {"ndmin": rng.choice([1, 3]), "dtype": "object"}
        f = np.array
    elif which == "sorted":
        if kind in ("row", "table") and rng.random() < 0.6:
            pre, vals = [["redim", {kind: 1}]], m_redim(vals, 1)
        if rng.random() < 0.5:
            kwds = {"reverse": rng.random() < 0.7}
        f = sorted
    else:
        if rng.random() < 0.4:
            kwds = {"zz": 1, "a": None}
        f = dict if which == "dict" else OrderedDict
    call = [which] + ([args] if args else []) + ([kwds] if kwds else [])
    full = ref + ":" + json.dumps(["pipe", pre + [call]] if pre or rng.random() < 0.3 else call)
    mon.note("values", vals, "ref", full)
    exp = run(lambda: f([x[:] if isinstance(x, list) else x for x in vals], *args, **kwds))
    got = run(lambda: xl.lasso(full, xl.mem_sheet(rows)).values)
    if exp[0] == "err":
        mon.eq(got, ("err", "ValueError"), "%r over %r, where Python raises %s" % (full, vals, exp[1]))
        mon.ev("ctor-error")
    else:
        mon.eq(got[0], "ok", "%r over %r: %r" % (full, vals, got[1]))
        mon.check(type(got[1]) is type(exp[1]), "%r gave %r", full, got[1])
        if which == "odict":
            mon.eq(list(got[1].items()), list(exp[1].items()), "items of %r" % full)
        else:
            mon.eq(got[1], exp[1], "values of %r over %r" % (full, vals))
    mon.ev("ctor")
    mon.key("ctor", full, repr(vals))


WORKLOADS = [("redim", w_redim, 6000, 120000), ("redim-grid", w_redim_grid, 2250, 11250), ("pipe", w_pipe, 1800, 40000), ("ctor", w_ctor, 2000, 40000)]
