import os

from pandalone import xleash
from pandalone.xleash.io.backend import ABCBackend, ABCSheet, SheetId, SheetsFactory

from pvm import xl

RULE = ("random histories (5-40 steps) of fetch/add/sibling/close over 3 workbooks x 3 sheets with aliases and colliding ids; the open/close/serve "
        "event log is checked online against an independent id-map automaton; non-trivial = history with at least one replacement or alias hit, "
        "keyed by its op sequence")
FLOORS = {"fetch:hit": 2300, "fetch:open": 5300, "replaced": 4000, "add": 4500, "sibling:hit": 960, "sibling:open": 920, "close": 330, "with": 110, "with-exc": 110, "lassoed": 410, "stuck": 100, "stuck-replaced": 30}


class Stuck(Exception):
    """A sheet failed to close."""


class Log:
    def __init__(self):
        self.events, self.bad = [], None
        self.faulty = set()  # serials of the sheets that fail to close

    def take(self):
        e, self.events = self.events, []
        return e


class LogSheet(ABCSheet):
    n = 0

    def __init__(self, log, book, ids):
        self.log, self.book, self.ids = log, book, list(ids)
        self.given = SheetId(book, list(ids)) if "w1" not in book else None
        LogSheet.n += 1
        self.serial = LogSheet.n

    def _close(self):
        self.log.events.append(("close", self))
        if self.serial in self.log.faulty:
            raise Stuck(self.serial)

    def _close_all(self):
        self.log.events.append(("close_all", self))
        if self.serial in self.log.faulty:
            raise Stuck(self.serial)

    def get_sheet_ids(self):
        if self.given:  # its very own ids, not a copy
            if self.given != (self.book, self.ids):
                self.log.bad = "ids of %r changed to %r" % (self, self.given.ids)
            return self.given
        return SheetId(self.book, list(self.ids))

    def open_sibling_sheet(self, sheet_id):
        sh = LogSheet(self.log, self.book, ids_of(sheet_id))
        self.log.events.append(("sibling", self, sheet_id, sh))
        return sh

    def list_sheetnames(self):
        return SHEETS

    def _read_states_matrix(self):
        import numpy as np

        return np.array([[True]])

    def read_rect(self, st, nd):
        return self.serial if nd is None else [[self.serial]]

    def __repr__(self):
        return "<sheet#%s %s %s>" % (self.serial, self.book, self.ids)


SHEETS = ["A", "B", "C"]


def ids_of(sheet_id):
    idx = 0 if sheet_id is None else sheet_id if isinstance(sheet_id, int) else SHEETS.index(sheet_id)
    return [SHEETS[idx], idx]


class LogBackend(ABCBackend):
    def __init__(self, log):
        self.log = log

    def bid(self, wb_url):
        return 1

    def open_sheet(self, wb_url, sheet_id):
        sh = LogSheet(self.log, wb_url, ids_of(sheet_id))
        self.log.events.append(("open", wb_url, sheet_id, sh))
        return sh

    def list_sheetnames(self, wb_url):
        return SHEETS


class Model:
    """id -> sheet; registering closes and forgets whatever holds any of the ids."""

    def __init__(self):
        self.held = {}

    def register(self, sheet, wbs, shs):
        keys = {(w, s) for w in wbs for s in shs}
        dropped = []
        for k in keys:
            old = self.held.get(k)
            if old is not None and old is not sheet and not any(d is old for d in dropped):
                dropped.append(old)
        self.held = {k: s for k, s in self.held.items() if not any(s is d for d in dropped)}
        for k in keys:
            self.held[k] = sheet
        return dropped

    def sheets(self):
        out = []
        for s in self.held.values():
            if not any(s is o for o in out):
                out.append(s)
        return out


def file_url(wb):
    return wb if "://" in wb else "file://" + os.path.join(os.getcwd(), wb)


WBS = ["w1.xlsx", "w2.xlsx", "http://host/w3.xlsx"]
ALIASES = ["alias1", "alias2"]


def closes(events, kind="close"):
    return [e[1] for e in events if e[0] == kind]


def same_set(mon, got, exp, what):
    mon.check(len(got) == len(exp) and all(any(g is e for e in exp) for g in got), "%s: got %r, expected %r", what, got, exp)


def w_history(rng, mon, i):
    log = Log()
    sf = SheetsFactory(backends=[LogBackend(log)])
    model = Model()
    known = []
    trail = []
    use_lasso = rng.random() < 0.2
    nontrivial = False
    for step in range(rng.randint(5, 40)):
        op = rng.choice(["fetch"] * 6 + ["add"] * 3 + ["sib"] * 2 + ["readd"] + (["close"] if rng.random() < 0.3 else ["fetch"]))
        if op == "fetch":
            wb = rng.choice(WBS + WBS + ALIASES + [file_url("w1.xlsx")])
            sid = rng.choice(["A", "B", "C", 0, 1, 2, None])
            trail.append(("fetch", wb, sid))
            mon.note(trail)
            hit = model.held.get((wb, sid))
            if use_lasso and isinstance(sid, str) and "://" not in wb:
                val = xleash.lasso("%s#%s!A1" % (wb, sid), sheets_factory=sf)
                sh = [s for s in known + [e[-1] for e in log.events if e[0] == "open"] if s.serial == val][-1]
                mon.ev("lassoed")
            else:
                sh = sf.fetch_sheet(wb, sid)
            ev = log.take()
            opens = [e for e in ev if e[0] == "open"]
            if hit is not None:
                mon.check(sh is hit, "fetch(%r, %r) served %r instead of the held %r", wb, sid, sh, hit)
                mon.eq(ev, [], "events while serving a held sheet")
                mon.ev("fetch:hit")
                if wb in ALIASES:
                    nontrivial = True
            else:
                mon.check(len(opens) == 1 and opens[0][3] is sh, "fetch(%r, %r): opens %r served %r", wb, sid, opens, sh)
                mon.eq(opens[0][1:3], (file_url(wb), sid), "ids the backend was asked to open")
                dropped = model.register(sh, [sh.book, wb], sh.ids + [sid])
                same_set(mon, closes(ev), dropped, "sheets closed by fetch(%r, %r)" % (wb, sid))
                mon.ev("fetch:open")
                mon.ev("replaced", len(dropped))
                nontrivial |= bool(dropped)
            if not any(k is sh for k in known):
                known.append(sh)
        elif op in ("add", "readd"):
            if op == "readd" and known:
                sh = rng.choice(known)
            else:
                sh = LogSheet(log, rng.choice([file_url(WBS[0]), file_url(WBS[1]), WBS[2], "mem"]), ids_of(rng.choice(SHEETS)))
                known.append(sh)
            wbs = rng.choice([[], ["alias1"], ["alias1", "alias2"], "alias2", "w1.xlsx"])
            shs = rng.choice([[], ["X"], "X", [None], ["X", 7], 7])
            trail.append(("add", sh.book, tuple(sh.ids), wbs, shs))
            mon.note(trail)
            sf.add_sheet(sh, wbs, shs)
            ev = log.take()
            dropped = model.register(sh, [sh.book] + (wbs if isinstance(wbs, list) else [wbs]), sh.ids + (shs if isinstance(shs, list) else [shs]))
            same_set(mon, closes(ev), dropped, "sheets closed by add_sheet")
            mon.check(len(ev) == len(dropped), "events of add_sheet: %r", ev)
            mon.ev("add")
            mon.ev("replaced", len(dropped))
            nontrivial |= bool(dropped)
        elif op == "sib" and known:
            base = rng.choice(known)
            sid = rng.choice(["A", "B", "C", 0, 1, 2, None])
            trail.append(("sib", base.book, tuple(base.ids), sid))
            mon.note(trail)
            sh = sf.fetch_sheet(None, sid, base_sheet=base)
            ev = log.take()
            if sid is None:
                mon.check(sh is base and not ev, "the base sheet itself expected, got %r, %r", sh, ev)
                continue
            hit = model.held.get((base.book, sid))
            if hit is not None:
                mon.check(sh is hit and not ev, "sibling %r of %r served %r (%r) instead of the held %r", sid, base, sh, ev, hit)
                mon.ev("sibling:hit")
            else:
                sibs = [e for e in ev if e[0] == "sibling"]
                mon.check(len(sibs) == 1 and sibs[0][1] is base and sibs[0][2] == sid and sibs[0][3] is sh, "sibling %r of %r: %r", sid, base, ev)
                mon.check(not any(e[0] == "open" for e in ev), "a backend was asked for a sibling: %r", ev)
                dropped = model.register(sh, [base.book], sh.ids + [sid])
                same_set(mon, closes(ev), dropped, "sheets closed by fetching a sibling")
                known.append(sh)
                mon.ev("sibling:open")
                mon.ev("replaced", len(dropped))
        elif op == "close":
            trail.append("close")
            mon.note(trail)
            how = rng.choice(["close", "with", "with-exc"])
            held = model.sheets()
            if how == "close":
                sf.close()
            elif how == "with":
                with sf:
                    pass
            else:
                try:
                    with sf:
                        raise KeyError("boom")
                except KeyError:
                    pass
                else:
                    mon.fail("exception swallowed by the with-block")
            ev = log.take()
            mon.ev("close")
            if how != "close":
                mon.ev(how)
            done = closes(ev, "close_all") + closes(ev)
            for s in held:
                mon.check(any(d is s for d in done), "held %r not closed by close()", s)
            for d in done:
                mon.check(any(d is s for s in held), "%r was not held, yet closed by close()", d)
            mon.check(not any(e[0] in ("open", "sibling") for e in ev), "opened by close(): %r", ev)
            model = Model()
    mon.check(log.bad is None, "%s", log.bad)
    # Everything held is still served, under each of its ids.
    for (wb, sid), s in list(model.held.items()):
        got = sf.fetch_sheet(wb, sid)
        mon.check(got is s, "finally (%r, %r) served %r instead of the held %r after %r", wb, sid, got, s, trail)
        mon.eq(log.take(), [], "events while serving held sheets")
    if nontrivial:
        mon.key(trail)


def w_simple(rng, mon, i):
    """A non-caching factory: opens what is asked, and fetches siblings through the base sheet."""
    from pandalone.xleash.io.backend import SimpleSheetsFactory

    log = Log()
    sf = SimpleSheetsFactory(backends=[LogBackend(log)])
    for _ in range(5):
        wb, sid = rng.choice(WBS), rng.choice(["A", 1, 0, None])
        mon.note("simple", wb, sid)
        sh = sf.fetch_sheet(wb, sid)
        mon.eq(log.take(), [("open", file_url(wb), sid, sh)], "simple fetch")
        sid2 = rng.choice(["A", "B", 2, 0])
        sib = sf.fetch_sheet(None, sid2, base_sheet=sh)
        mon.eq(log.take(), [("sibling", sh, sid2, sib)], "simple sibling")
        mon.check(sf.fetch_sheet(None, None, base_sheet=sh) is sh, "base")
        mon.ev("simple")


def w_stuck(rng, mon, i):
    """Sheets failing to close are closed and forgotten along with all others."""
    log = Log()
    sf = SheetsFactory(backends=[LogBackend(log)])
    held, trail = {}, []
    for n in range(rng.randint(1, 6)):
        wb, sid = rng.choice(WBS), rng.choice(SHEETS)
        if (wb, sid) not in held and (file_url(wb), sid) not in held:
            sh = held[wb, sid] = sf.fetch_sheet(wb, sid)
            if rng.random() < 0.5:
                log.faulty.add(sh.serial)
            trail.append((wb, sid, sh.serial in log.faulty))
    mon.note("held, faulty", trail)
    log.take()
    if rng.random() < 0.5:  # replaced by another
        (wb, sid), old = rng.choice(list(held.items()))
        new = LogSheet(log, file_url(wb), ids_of(sid))
        try:
            sf.add_sheet(new, wb)
        except Stuck:
            mon.check(old.serial in log.faulty, "failed although %r closed well", old)
            mon.ev("stuck-replaced")
        got = sf.fetch_sheet(wb, sid)
        mon.check(got is not old, "the closed %r still served", old)
        mon.check(closes(log.take()) == [old], "closed when replacing %r", old)
        held[wb, sid] = got
        for k in held:
            if k != (wb, sid):
                mon.check(sf.fetch_sheet(*k) is held[k], "%r not served after replacing another", held[k])
        log.take()
    how = rng.choice(["close", "with", "with-exc"])
    stuck = any(s.serial in log.faulty for s in held.values())
    try:
        if how == "close":
            sf.close()
        else:
            with sf:
                if how == "with-exc":
                    raise KeyError("boom")
    except Stuck:
        mon.check(stuck, "failed although all closed well")
    except KeyError:
        mon.check(how == "with-exc", "KeyError of close()")
    done = closes(log.take(), "close_all")
    for s in held.values():
        mon.check(any(d is s for d in done), "held %r not closed, along with the stuck ones of %r", s, trail)
    for (wb, sid), s in held.items():
        mon.check(sf.fetch_sheet(wb, sid) is not s, "the closed %r still served", s)
    if stuck:
        mon.ev("stuck")
        mon.key("stuck", trail, how)


WORKLOADS = [("stuck", w_stuck, 300, 5000), ("history", w_history, 1500, 40000), ("simple", w_simple, 100, 1000)]
