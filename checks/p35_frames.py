import copy
import json
import os
import warnings

import numpy as np
import pandas as pd
from pandalone import xleash

from pvm import refgen, wb as wbk, xl

RULE = ("tables written by openpyxl with random headers, blanks, text/number/boolean/date columns and random reader arguments: the `df` filter on the lassoed rect vs "
        "pandas.read_excel on the file; in-memory tables vs a cell-by-cell oracle; the `sr` filter vs a dict oracle; empty captures, pipes, bad arguments; "
        "non-trivial = cases with arguments, by table shape and argument names")
FLOORS = {"vs-excel": 210, "cells": 450, "sr": 220, "empty": 70, "bad-arg": 150, "pipe": 190, "int-usecols": 5}

warnings.simplefilter("ignore")
POOL = {
    "int": lambda rng: rng.choice([0, 1, -3, 7, 120, 10 ** 6]),
    "float": lambda rng: rng.choice([0.5, -1.25, 0.0, 3.5, 1e-3, 7.125]),
    "text": lambda rng: rng.choice(["u", "v w", "x", "Ω", "a1", "q", "no", "yes", "NA", "-"]),
    "bool": lambda rng: rng.random() < 0.5,
    "mixed": lambda rng: rng.choice([1, 2.5, "t", True, False, "NA", 0, 0.0, "u"]),
}


def column(rng, n, blanks=True):
    k = rng.choice(sorted(POOL))
    p = rng.choice([0, 0, 0.3]) if blanks else 0
    return [None if rng.random() < p else POOL[k](rng) for _ in range(n)]


def table(rng, nh=1, ni=0, blank=0.1):
    n, w = rng.randint(1, 5), rng.randint(max(1, ni), rng.choice([4, 4, 7]))
    cols = [column(rng, n) for _ in range(w)]
    for c in range(ni):
        cols[c] = [rng.choice(["r1", "r2", "r3"]) if rng.random() < (1 - blank if r == 0 else 0.7) else None for r in range(n)]
    rows = [list(r) for r in zip(*cols)]
    heads = []
    for h in range(nh):
        heads.append([rng.choice(["a", "b", "c", "d d", "Col", "1", "é"]) + (str(c) if rng.random() < 0.8 else "") for c in range(w)])
        if h == 0 and nh > 1:
            heads[0] = [rng.choice(["A", "B"]) if c == 0 or rng.random() < 0.6 else None for c in range(w)]
    rows = heads + rows
    if rows[-1][-1] is None:
        rows[-1][-1] = 1
    return rows


def same_frame(mon, got, exp, what, sig=None):
    mon.check(type(got) is type(exp), "%s: got %r, expected a %s", what, got, type(exp).__name__)
    try:
        if isinstance(exp, pd.Series):
            pd.testing.assert_series_equal(got, exp)
        else:
            pd.testing.assert_frame_equal(got, exp)
    except AssertionError as ex:
        mon.fail("%s: %s\ngot:\n%s\nexpected:\n%s" % (what, str(ex)[:300], got, exp), sig=sig)


def rand_kwds(rng, rows):
    """-> (kwds, number of header-rows)"""
    w, n = len(rows[0]), len(rows)
    kw = {}
    for k in rng.sample(["header", "index_col", "usecols", "names", "skiprows", "nrows", "skipfooter", "na_values", "keep_default_na", "dtype",
                         "true_values", "squeeze", "decimal", "thousands", "comment", "na_filter", "parse_dates"], rng.choice([0, 1, 1, 2, 2, 3])):
        if k == "header":
            kw[k] = rng.choice([None, 0, [0], 1, None])
        elif k == "index_col":
            kw[k] = rng.choice([0, [0], rng.randrange(w), sorted(rng.sample(range(w), min(w, 2)))])
        elif k == "usecols":
            kw[k] = rng.choice([sorted(rng.sample(range(w), rng.randint(1, w))), "A:%s" % xl.col_letters(rng.randrange(w)), xl.col_letters(rng.randrange(w)),
                                rng.randrange(w), rng.randrange(w), rng.sample(rows[0], rng.randint(1, w)) if len(set(rows[0])) == w else [0], ",".join(xl.col_letters(c) for c in rng.sample(range(w), rng.randint(1, w)))])
        elif k == "names":
            kw[k] = ["n%d" % c for c in range(w)]
        elif k == "skiprows":
            kw[k] = rng.choice([1, 2, [1], [0], [0, 2]])
        elif k in ("nrows", "skipfooter"):
            kw[k] = rng.randint(0, n - 1)
        elif k == "na_values":
            kw[k] = rng.choice([["u"], "x", ["-", "q"]])
        elif k == "keep_default_na":
            kw[k] = rng.random() < 0.3
        elif k == "dtype":
            kw[k] = rng.choice(["object", "str", {rows[0][0]: "object"}, {rng.choice(rows[0]): "str"}])
        elif k == "true_values":
            kw.update(true_values=["yes", "u"], false_values=["no", "x"])
        elif k == "squeeze":
            kw[k] = rng.random() < 0.8
        elif k == "thousands":
            kw[k] = rng.choice([",", "1"])
        elif k == "comment":
            kw[k] = rng.choice(["#", "u", "-"])
        elif k == "na_filter":
            kw[k] = False
        elif k == "parse_dates":
            kw[k] = rng.choice([True, [0], [rows[0][0]]])
        else:
            kw[k] = "."
    return kw


def known_sig(rows, kw, got, exp):
    """The known finding: a 2nd row all blank is lost, if the 1st below many headers has blank labels only."""
    header, index = kw.get("header"), kw.get("index_col")
    if set(kw) != {"header", "index_col"} or not isinstance(header, list) or len(header) < 2 or len(rows) < len(header) + 2:
        return None
    index = index if isinstance(index, list) else [index]
    first, second = rows[len(header):len(header) + 2]
    if any(first[c] is not None for c in index) or set(first) == {None} or set(second) != {None}:
        return None
    return "blank-row-after-blank-label" if isinstance(got, pd.DataFrame) and got.equals(exp.iloc[1:]) else None


def w_excel(rng, mon, i):
    """What pandas reads from a sheet is what the filter makes of its cells."""
    multi = rng.random() < 0.35
    if multi:
        nh, ni = rng.choice([(2, 0), (2, 1), (2, 2), (1, 1), (1, 2), (0, 2), (3, 0), (3, 1), (3, 2)])
        skip = rng.random() < 0.3
        rows = table(rng, nh, ni, 0 if skip else 0.1)  # Pandas fills from the heads, if it skips rows.
        kw = {}
        if nh != 1:
            kw["header"] = list(range(nh)) if nh > 1 else None
        if ni:
            kw["index_col"] = [0, 1][:ni] if ni == 2 or rng.random() < 0.5 else 0
        if nh > 1 and ni and rng.random() < 0.5:
            rows.insert(nh, ["R%d" % c for c in range(ni)] + [None] * (len(rows[0]) - ni))
        if skip:
            k = rng.choice([1, 2, 2, 3])
            rows = [[rng.choice(["skip", None, 1]) for _ in rows[0]] for _ in range(k)] + rows
            rows[0][0] = "skip"
            kw["skiprows"] = rng.choice([k, list(range(k))])
        if rng.random() < 0.3:
            kw.update(rng.choice([{"nrows": rng.randint(1, 4)}, {"skipfooter": rng.randint(0, 2)}, {"na_values": ["u"]}, {"dtype": "object"}]))
            rows = [[0] + r[1:] if set(r) == {None} else r for r in rows]
    else:
        rows = table(rng)
        kw = rand_kwds(rng, rows)
        if "nrows" in kw:
            kw.pop("comment", None)  # Pandas counts comments in.
            # Pandas trims the blank rows it finds last.
            rows = [[0] + r[1:] if set(r) == {None} else r for r in rows]
    path = os.path.join(mon.tmp, "f%d_%d.xlsx" % (os.getpid(), i))
    wbk.write(path, {"S": {(r, c): v for r, row in enumerate(rows) for c, v in enumerate(row) if v is not None}})
    mon.note("rows", rows, "kwds", kw)
    pkw = {k: v for k, v in kw.items() if k != "squeeze"}
    if type(pkw.get("usecols")) is int:
        pkw["usecols"] = list(range(pkw["usecols"] + 1))
        mon.ev("int-usecols")
    try:
        exp = pd.read_excel(path, sheet_name="S", engine="openpyxl", **copy.deepcopy(pkw))
    except Exception as ex:
        mon.ev("pandas-refused")
        os.unlink(path)
        return
    if kw.get("squeeze") and exp.shape[1] == 1:
        exp = exp.iloc[:, 0]
        mon.ev("squeezed")
    ref = "%s#A1:%s%d:" % (path, xl.col_letters(len(rows[0]) - 1), len(rows)) + refgen.dumps(
        rng, rng.choice([["df", kw], {"func": "df", "kwds": kw}] + [["df", [], kw]]))
    got = xleash.lasso(ref)
    same_frame(mon, got, exp, "frame of %r over %r" % (ref[ref.index("#"):], rows), known_sig(rows, kw, got, exp))
    mon.ev("vs-excel")
    os.unlink(path)
    if kw:
        mon.key(rows, sorted(kw), multi)


def w_cells(rng, mon, i):
    """Labels are the header's cells and all cells keep their values, blanks being nulls."""
    rows = table(rng)
    for c in range(len(rows[0])):
        rows[0][c] = "h%d" % c
    snap = copy.deepcopy(rows)
    header = rng.random() < 0.7
    spec = "df" if header else ["df", {"header": None}]
    fields = []

    def tap(ranger, lasso):
        fields.append(lasso)
        return lasso

    fs = dict(xleash.installed_filters, tap={"func": tap})
    pipe = rng.random() < 0.4
    full = {"func": "pipe", "args": ["tap", spec, "tap"]} if pipe else spec
    ref = "#A1:%s%d:" % (xl.col_letters(len(rows[0]) - 1), len(rows)) + json.dumps(full)
    mon.note("rows", rows, "ref", ref)
    l = xl.lasso(ref, xl.mem_sheet(rows), fs, {"b": 2})
    df = l.values
    mon.check(isinstance(df, pd.DataFrame), "%r gave %r", ref, df)
    body = snap[1:] if header else snap
    mon.eq(list(df.columns), snap[0] if header else list(range(len(snap[0]))), "columns")
    mon.eq(list(df.index), list(range(len(body))), "index of %r over %r" % (ref, snap))
    for r, row in enumerate(body):
        for c, v in enumerate(row):
            g = df.iat[r, c]
            if v is None or v == "NA":
                mon.check(pd.isnull(g), "blank cell %r became %r over %r", (r, c), g, snap)
            else:
                nums = (int, float, np.number, bool, np.bool_)
                ok = g == v and isinstance(g, str) == isinstance(v, str) or isinstance(v, bool) and str(g) == str(v)
                mon.check(ok and (isinstance(v, str) or isinstance(g, nums) or str(g) == str(v)), "cell %r of %r became %r", (r, c), snap, g)
    if pipe:
        a, b = fields
        mon.check(b.values is df and all(getattr(a, f) == getattr(b, f) for f in ("st", "nd", "sheet", "exp_moves", "base_coords")), "other fields changed by df")
        mon.ev("pipe")
    mon.eq((xl.coords_of(l.st), xl.coords_of(l.nd)), ((0, 0), (len(snap) - 1, len(snap[0]) - 1)), "rect")
    mon.ev("cells")
    mon.key(snap, header, pipe)


def w_series(rng, mon, i):
    n = rng.randint(1, 6)
    keys = [rng.choice(["a", "b", "c", 1, 2.5, "é", True]) for _ in range(n)] if rng.random() < 0.3 else ["k%d" % r for r in range(n)]
    vals = column(rng, n)
    rows = [[k, v] for k, v in zip(keys, vals)]
    kw = rng.choice([{}, {}, {"name": "N"}, {"dtype": "object"}])
    if kw.get("dtype") is None and rng.random() < 0.5:
        spec = "sr" if not kw else ["sr", kw]
    else:
        spec = ["sr", kw]
    ref = "#A1:B%d:" % n + json.dumps(spec)
    mon.note("rows", rows, "ref", ref)
    got = xl.lasso(ref, xl.mem_sheet(rows)).values
    d = {}
    for k, v in rows:
        d[k] = v
    same_frame(mon, got, pd.Series(list(d.values()), index=list(d), **kw), "series of %r over %r" % (ref, rows))
    mon.ev("sr")
    mon.key(rows, kw)


def w_edge(rng, mon, i):
    rows = table(rng)
    sheet = xl.mem_sheet(rows)
    kind = rng.choice(["empty", "bad", "bad"])
    if kind == "empty":
        ref = rng.choice(['#Z9(L):..(D):"df"', '#Z9(R):"df"', '#A1:..:["pipe", [["py", ["[]"]], "df"]]', '#A1:B2:["pipe",[["py",["None"]],"df", ["tap"]]]',
                          '#A1:..:["pipe", [["py", ["[]"]], ["df", {"header": null}]]]'])
        mon.note("rows", rows, "ref", ref)
        log = []

        def tap(ranger, lasso):
            log.append(lasso.values)
            return lasso

        ref2 = ref
        if ref.startswith("#Z9"):
            sheet = xl.mem_sheet([[None]])
        l = xl.lasso(ref2, sheet, dict(xleash.installed_filters, tap={"func": tap}))
        v = l.values
        mon.check(isinstance(l, xleash.Lasso), "not a lasso")
        if not ref.startswith("#Z9"):
            mon.check(isinstance(v, pd.DataFrame) and v.shape == (0, 0), "empty values made into %r", v)
        else:
            mon.check(v is None or len(v) == 0, "empty capture made into %r", v)
        mon.ev("empty")
    else:
        bad = rng.choice([{"header": True}, {"header": False}, {"skip_footer": 1}, {"chunksize": 2}, {"date_parser": 1}])
        ref = "#A1:%s%d:" % (xl.col_letters(len(rows[0]) - 1), len(rows)) + json.dumps(["df", bad])
        mon.note("ref", ref)
        mon.raises(ValueError, xl.lasso, ref, sheet)
        l = xl.lasso(ref, sheet, None, {"lax": True})
        mon.eq(l.values, rows, "values left by failing %r under lax" % ref)
        mon.ev("bad-arg")
    mon.key(kind, ref)


WORKLOADS = [("excel", w_excel, 1200, 16000), ("cells", w_cells, 1000, 25000), ("series", w_series, 500, 10000), ("edge", w_edge, 500, 8000)]
