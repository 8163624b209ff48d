from pvm import wb, xl

RULE = ("every move, modifier and landing (inside, on and beyond the borders) over random sheets, both edges; oracle walks cell by cell; "
        "plus transpose/flip metamorphic relations; thorough enumerates all 3x3 occupancies x landings x moves x modifiers; "
        "non-trivial = landing with moves, keyed by (sheet, edges)")
FLOORS = {"book": 50, "target:found": 2000, "target:none": 500, "target:walk": 300, "target:stay": 300, "beyond": 300, "metamorphic": 500, "lone": 300, "lone-dependent": 300}


def observe(ref, sheet, **kw):
    l = xl.lasso(ref, sheet, **kw)
    return (xl.coords_of(l.st), xl.coords_of(l.nd)) if l.st is not None or l.nd is not None else None


def expect(full, st, nd, base=None):
    try:
        return xl.m_capture(full, st, nd, None, base)
    except xl.Empty:
        return None


def classify(mon, full, land, e, walk):
    if not e.mov:
        return
    if land not in full:
        try:
            xl.m_opposite(full, land, e.mov)
            mon.ev("target:found")
        except xl.Empty:
            mon.ev("target:none")
    else:
        mon.ev("target:walk" if e.mod == "+" or walk and e.mod != "?" else "target:stay")


def w_targets(rng, mon, i):
    h, w = rng.randint(1, 8), rng.randint(1, 8)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    full = xl.full_cells(rows)
    up, dn = xl.margins(full)

    def coord(n, dot):
        k = rng.random()
        if k < 0.55:
            return ("abs", rng.randrange(n))
        if k < 0.7:
            return ("abs", n + rng.randrange(4))
        return rng.choice("^_" + ("..." if dot else ""))

    st = xl.E(coord(h, False), coord(w, False), rng.choice(xl.MOVES), rng.choice([None, None, "+", "?"]))
    if rng.random() < 0.2:
        st.mov = st.mod = None
    r = rng.random()
    if r < 0.35:
        nd = xl.E(".", ".", rng.choice(xl.MOVES), rng.choice([None, None, "+", "?"]))
    else:
        nd = xl.E(coord(h, True), coord(w, True), rng.choice(xl.MOVES + [None] * 4), None)
        if nd.mov:
            nd.mod = rng.choice([None, None, "+", "?"])
    ref = xl.ref_text(rng, st, nd)
    mon.note("ref=", ref, "sheet=", xl.draw(rows))
    sheet = xl.mem_sheet(rows)
    if full and rng.random() < 0.03:
        sheet = wb.book_sheet(rng, mon, rows)
        mon.ev("book")
    exp = expect(full, st, nd)
    got = observe(ref, sheet)
    mon.eq(got, exp, "rect of %r on %s" % (ref, xl.draw(rows)))
    land = (xl.m_coord(st.row, up[0], dn[0], None), xl.m_coord(st.col, up[1], dn[1], None))
    classify(mon, full, land, st, False)
    if land[0] >= h or land[1] >= w:
        mon.ev("beyond")
    if exp and nd.mov:
        t1 = xl.m_target(full, land, st.mov, st.mod, False)
        land2 = (xl.m_coord(nd.row, up[0], dn[0], t1[0]), xl.m_coord(nd.col, up[1], dn[1], t1[1]))
        classify(mon, full, land2, nd, nd.row == nd.col == ".")
    if st.mov or nd.mov:
        mon.key(xl.draw(rows), ref.upper())
    # capturing again on the same sheet object gives the same rect (cached states/margins)
    mon.eq(observe(ref, sheet), exp, "2nd rect of %r" % ref)


def w_lone(rng, mon, i):
    """A lone 1st edge targets like any other; based on the given cell when dependent."""
    h, w = rng.randint(1, 7), rng.randint(1, 7)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    full = xl.full_cells(rows)
    if not full:
        return
    up, dn = xl.margins(full)
    base = (rng.randrange(h), rng.randrange(w))
    k = rng.random()
    r, c = rng.randrange(h), rng.randrange(w)
    st = xl.E(*((".", ".") if k < 0.3 else (".", ("abs", c)) if k < 0.4 else (("abs", r), ".") if k < 0.5 else (("abs", r), ("abs", c))),
              rng.choice(xl.MOVES), rng.choice([None, None, "+", "?"]))
    ref = xl.ref_text(rng, st, None)
    mon.note("ref=", ref, "sheet=", xl.draw(rows), "base=", base)
    kw = {"base_coords": xl.xleash.Coords(*base)} if k < 0.5 or rng.random() < 0.3 else {}
    exp = expect(full, st, None, base)
    sheet = xl.mem_sheet(rows)
    mon.eq(observe(ref, sheet, **kw), exp, "cell of %r on %s with base %s" % (ref, xl.draw(rows), base))
    got = xl.lasso(ref, sheet, **kw).values
    want = [] if exp is None else rows[exp[0][0]][exp[0][1]]
    mon.check(type(got) is type(want) and got == want, "value of %r on %s: %r, expected %r", ref, xl.draw(rows), got, want)
    mon.ev("lone" if k >= 0.5 else "lone-dependent")
    mon.key("lone", xl.draw(rows), ref.upper(), base)


FLIP = {"T": str.maketrans("LURD", "ULDR"), "H": str.maketrans("LR", "RL"), "V": str.maketrans("UD", "DU")}


def w_symmetry(rng, mon, i):
    """Transposing or flipping sheet, landings and moves transposes or flips the captured rect."""
    h, w = rng.randint(1, 8), rng.randint(1, 8)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    lr, lc = rng.randrange(h), rng.randrange(w)
    lr2, lc2 = rng.randrange(h), rng.randrange(w)
    mov, mov2 = rng.choice(xl.MOVES), rng.choice(xl.MOVES)
    mod, mod2 = rng.choice([None, "+", "?"]), rng.choice([None, "+", "?"])
    dep = rng.random() < 0.4
    for sym in "THV":
        def pt(r, c):
            return (c, r) if sym == "T" else (r, w - 1 - c) if sym == "H" else (h - 1 - r, c)
        rows2 = [list(x) for x in zip(*rows)] if sym == "T" else [r[::-1] for r in rows] if sym == "H" else rows[::-1]

        def ref(tr, p):
            a, b = p(lr, lc), p(lr2, lc2)
            st = xl.E(("abs", a[0]), ("abs", a[1]), mov.translate(tr), mod)
            nd = xl.E(".", ".", mov2.translate(tr), mod2) if dep else xl.E(("abs", b[0]), ("abs", b[1]), mov2.translate(tr), mod2)
            return xl.ref_text(rng, st, nd, case=False)

        r1, r2 = ref({}, lambda r, c: (r, c)), ref(FLIP[sym], pt)
        mon.note("sym", sym, r1, r2, xl.draw(rows))
        g1, g2 = observe(r1, xl.mem_sheet(rows)), observe(r2, xl.mem_sheet(rows2))
        if g1 is not None:
            a, b = pt(*g1[0]), pt(*g1[1])
            g1 = ((min(a[0], b[0]), min(a[1], b[1])), (max(a[0], b[0]), max(a[1], b[1])))
        mon.eq(g2, g1, "rect under symmetry %s" % sym)
        mon.ev("metamorphic")


def w_small(rng, mon, i):
    """Case i: one occupancy of a 3x3 sheet, all landings (inside and one beyond), moves and modifiers."""
    rows = xl.fill([[bool(i >> (3 * r + c) & 1) for c in range(3)] for r in range(3)])
    full = xl.full_cells(rows)
    sheet = xl.mem_sheet(rows)
    every = mon.thorough
    for lr in range(4):
        for lc in range(4):
            for mov in xl.MOVES:
                for mod in (None, "+", "?"):
                    for dep in (False, True):
                        if not every and rng.random() > 0.06:
                            continue
                        st = xl.E(("abs", lr), ("abs", lc), None if dep else mov, None if dep else mod)
                        nd = xl.E(".", ".", mov if dep else None, mod if dep else None)
                        ref = xl.ref_text(rng, st, nd)
                        mon.note("small ref=", ref, "sheet=", xl.draw(rows))
                        mon.eq(observe(ref, sheet), expect(full, st, nd), "rect of %r on %s" % (ref, xl.draw(rows)))
                        mon.ev("small")
                        classify(mon, full, (lr, lc), nd if dep else st, dep)
                        mon.key(i, lr, lc, mov, mod, dep)


WORKLOADS = [("lone", w_lone, 1500, 40000), ("targets", w_targets, 8000, 200000), ("symmetry", w_symmetry, 800, 20000), ("small", w_small, 512, 512)]
