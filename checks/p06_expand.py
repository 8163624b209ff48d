from pvm import refgen, wb, xl

RULE = ("random sheets x start rectangles (also partly beyond the sheet) x expansion strings; a step-by-step fixed-point model is the oracle, plus "
        "invariants (superset, only named sides move, stays in the sheet, idempotent fixed point); watchdog for termination; "
        "non-trivial = expansions that grew the rect")
FLOORS = {"book": 50, "expanded": 3000, "grew": 1500, "counted": 1000, "chain": 500, "fixpoint": 500}


def rect(l):
    return xl.coords_of(l.st), xl.coords_of(l.nd)


def w_expand(rng, mon, i):
    h, w = rng.randint(1, 9), rng.randint(1, 9)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    full = xl.full_cells(rows)
    r0, c0 = rng.randrange(h + (rng.random() < 0.2)), rng.randrange(w + (rng.random() < 0.2))
    r1, c1 = (r0, c0) if rng.random() < 0.4 else (rng.randrange(h + 1), rng.randrange(w + 1))
    exp = refgen.exp_moves(rng)
    st, nd = xl.E(("abs", r0), ("abs", c0)), xl.E(("abs", r1), ("abs", c1))
    ref = xl.ref_text(rng, st, nd, exp)
    mon.note("ref=", ref, "sheet=", xl.draw(rows))
    sheet = xl.mem_sheet(rows)
    if full and rng.random() < 0.03:
        sheet = wb.book_sheet(rng, mon, rows)
        mon.ev("book")
    got = rect(xl.lasso(ref, sheet))
    want = xl.m_expand(full, (r0, c0), (r1, c1), exp)
    mon.eq(got, want, "rect of %r on %s" % (ref, xl.draw(rows)))
    mon.ev("expanded")
    lo, hi = (min(r0, r1), min(c0, c1)), (max(r0, r1), max(c0, c1))
    sides = {"U": lo[0] - got[0][0], "L": lo[1] - got[0][1], "D": got[1][0] - hi[0], "R": got[1][1] - hi[1]}
    for d, n in sides.items():
        mon.check(n >= 0, "side %s of %r shrank", d, ref)
        mon.check(n == 0 or d in exp, "side %s of %r moved though not named", d, ref)
    mon.check(got[0][0] >= 0 and got[0][1] >= 0 and got[1][0] <= max(h - 1, hi[0]) and got[1][1] <= max(w - 1, hi[1]), "%r left the sheet", ref)
    chains = xl.m_exp_parse(exp)
    if any(t for _, t in chains):
        mon.ev("counted")
    if any(len(s) > 1 for s, _ in chains):
        mon.ev("chain")
    for d in "LURD":
        if all(t is not None for s, t in chains if d in s):
            cap = sum(t for s, t in chains if s == d)
            mon.check(sides[d] <= cap, "side %s of %r moved %s > %s times", d, ref, sides[d], cap)
    if got != (lo, hi):
        mon.ev("grew")
        mon.key(xl.draw(rows), ref.upper())


def w_fixpoint(rng, mon, i):
    """Expanding a fully expanded rect by the same single uncounted chain changes nothing; edges' targets as start rects."""
    h, w = rng.randint(1, 9), rng.randint(1, 9)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    full = xl.full_cells(rows)
    chain = "".join(rng.choice("LURD") for _ in range(rng.randint(1, 5)))
    st = xl.E(("abs", rng.randrange(h)), ("abs", rng.randrange(w)), rng.choice(xl.MOVES + [None] * 6))
    nd = rng.choice([None, xl.E(".", "."), xl.E(".", ".", rng.choice(xl.MOVES))])
    ref = xl.ref_text(rng, st, nd, chain)
    if nd is None:  # a missing 2nd edge around a colon means the bottom-right
        nd = xl.E("_", "_")
    mon.note("ref=", ref, "sheet=", xl.draw(rows))
    sheet = xl.mem_sheet(rows)
    l = xl.lasso(ref, sheet)
    try:
        want = xl.m_capture(full, st, nd, chain)
    except xl.Empty:
        mon.eq(l.values, [], "values of empty capture")
        mon.eq((l.st, l.nd), (None, None), "rect of empty capture")
        return
    mon.eq(rect(l), want, "rect of %r on %s" % (ref, xl.draw(rows)))
    (a, b), (c, d) = want
    again = "#%s:%s:%s" % (xl.a1(a, b), xl.a1(c, d), chain)
    mon.eq(rect(xl.lasso(again, sheet)), want, "re-expanding %r" % again)
    for s in set(chain):
        line = {"L": [(r, b - 1) for r in range(a, c + 1)], "R": [(r, d + 1) for r in range(a, c + 1)],
                "U": [(a - 1, k) for k in range(b, d + 1)], "D": [(c + 1, k) for k in range(b, d + 1)]}[s]
        mon.check(not any(x in full for x in line), "%r stopped before a line with full cells at %s", ref, s)
    mon.ev("fixpoint")
    mon.key("fix", xl.draw(rows), ref.upper())


def w_spiral(rng, mon, i):
    """Spirals and combs need many rounds to converge."""
    n = rng.randint(5, 25)
    full, (r, c), d = set(), (0, 0), 0
    dirs = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    full.add((r, c))
    for _ in range(n * n):
        dr, dc = dirs[d % 4]
        nr, nc = r + dr, c + dc
        ahead = (nr + dr, nc + dc)
        if not (0 <= nr < n and 0 <= nc < n) or ahead in full:
            d += 1
            if d > 4 * n:
                break
            continue
        r, c = nr, nc
        full.add((r, c))
    rows = [[r * n + c if (r, c) in full else None for c in range(n)] for r in range(n)]
    st = rng.choice(sorted(full))
    exp = rng.choice(["LURD", "RDLU", "DRUL", "L?URD", "LURD3", "R2D2L2U2", "LRUD", "UDRL", "L9U9R9D9", "URDL1"])
    ref = "#%s:..:%s" % (xl.a1(*st), exp)
    mon.note("ref=", ref, "spiral", n)
    mon.eq(rect(xl.lasso(ref, xl.mem_sheet(rows))), xl.m_expand(full, st, st, exp), "rect of %r on spiral %d" % (ref, n))
    mon.ev("spiral")
    mon.key("spiral", n, ref)


WORKLOADS = [("expand", w_expand, 8000, 200000), ("fixpoint", w_fixpoint, 2500, 60000), ("spiral", w_spiral, 300, 5000)]
