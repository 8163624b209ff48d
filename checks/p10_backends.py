import os
import pathlib
import posixpath

from pandalone import xleash
from pandalone.xleash.io.backend import ABCBackend, SheetsFactory, SimpleSheetsFactory

from pvm import wb as wbk, xl

RULE = ("auctions: 1-6 recording backends with random bids (None/negative/zero/ties), location spellings; files: the same workbook reached by "
        "relative, absolute, non-normalized, url and long paths with spaces/unicode; workbooks served by a loopback http server; non-trivial = auctions with >= 2 bidders, and path spellings")
FLOORS = {"auction:won": 1100, "auction:none": 78, "auction:empty-win": 65, "spelling": 570, "long-path": 24, "http": 330, "remote": 30, "evolved": 180, "winner-changed": 80}


class Be(ABCBackend):
    def __init__(self, log, n, bid, finds):
        self.log, self.n, self.b, self.finds = log, n, bid, finds

    def bid(self, wb_url):
        self.log.append(("bid", self.n, wb_url))
        return self.b

    def open_sheet(self, wb_url, sheet_id):
        self.log.append(("open", self.n, wb_url, sheet_id))
        if self.finds:
            s = xl.mem_sheet([[self.n]], book=wb_url, ids=("S", 0))
            return s
        return None

    def list_sheetnames(self, wb_url):
        self.log.append(("list", self.n, wb_url))
        return ["S%d" % self.n]

    def __repr__(self):
        return "Be%d(%r)" % (self.n, self.b)


SEGS = ["a", "some dir", "élan", "x.y", "δ", "wb", "UPPER", "a+b", "@h", "it's", "(1)", "[2]"]


def abs_url(path):
    return pathlib.PurePosixPath(posixpath.normpath(posixpath.join(os.getcwd(), path)))


def w_auction(rng, mon, i):
    from urllib.parse import unquote, urlparse

    log = []
    bids = [rng.choice([None, None, -5, -0.5, 0, 0.25, 0.75, 1, 1, 7, 7.5, 100, 1e9]) for _ in range(rng.randint(1, 6))]
    bes = [Be(log, n, b, rng.random() < 0.9) for n, b in enumerate(bids)]
    kind = rng.choice(["rel", "abs", "file", "http"])
    path = "/".join(rng.choice(SEGS) for _ in range(rng.randint(1, 4))) + ".xlsx"
    loc = {"rel": path, "abs": "/" + path, "file": pathlib.PurePosixPath("/" + path).as_uri(),
           "http": rng.choice(["http", "https"]) + "://some.host:81/" + path.replace(" ", "_")}[kind]
    mon.note("bids", bids, [b.finds for b in bes], "loc=", loc)
    sf = rng.choice([SheetsFactory, SimpleSheetsFactory])(backends=bes)
    op = rng.choice(["fetch", "fetch", "lasso", "list", "decide"])
    top = max([b for b in bids if b is not None], default=None)
    winners = {n for n, b in enumerate(bids) if b is not None and b == top}

    def go():
        if op == "fetch":
            return sf.fetch_sheet(loc, "S")
        if op == "lasso":
            return xleash.lasso(loc + "#S!A1", sheets_factory=sf)
        if op == "list":
            return sf.list_sheetnames(loc)
        return sf.decide_backend(loc)

    if top is None:
        mon.raises(ValueError, go)
        mon.ev("auction:none")
    elif op in ("fetch", "lasso") and not any(bes[n].finds for n in winners):
        mon.raises(ValueError, go)
        mon.ev("auction:empty-win")
    else:
        try:
            res = go()
        except ValueError:
            mon.check(op in ("fetch", "lasso") and not all(bes[n].finds for n in winners), "%s failed with bids %r", op, bids)
            res = None
        if res is not None:
            mon.ev("auction:won")
            if op == "list":
                mon.check(res in [["S%d" % n] for n in winners], "listed by %r", res)
            elif op == "decide":
                mon.check(any(res is bes[n] for n in winners), "decided %r", res)
            elif op == "lasso":
                mon.check(res in winners, "lassoed from backend %r", res)
    asked = {e[1] for e in log if e[0] != "bid"}
    mon.check(asked <= winners, "backends %r asked though not highest bidders, of %r", asked, bids)
    mon.check({e[1] for e in log if e[0] == "bid"} == set(range(len(bes))), "not all backends asked to bid: %r", log)
    urls = {e[2] for e in log}
    mon.check(len(urls) == 1, "backends saw different urls: %r", urls)
    url = urls.pop()
    p = urlparse(url)
    if kind == "http":
        mon.check(url.startswith(loc[:loc.index("://")] + "://some.host:81/"), "http url %r became %r", loc, url)
        mon.eq(unquote(p.path), unquote(urlparse(loc).path), "path of %r" % url)
        mon.ev("http")
    else:
        mon.check(p.scheme == "file" and not p.netloc, "url %r", url)
        want = posixpath.normpath(posixpath.join(os.getcwd(), path if kind == "rel" else "/" + path))
        mon.eq(unquote(p.path), want, "path of url %r for location %r" % (url, loc))
    if len([b for b in bids if b is not None]) > 1:
        mon.key(bids, op, kind, path)


def w_evolve(rng, mon, i):
    """The same factory asked again, after its backends or their bids have changed."""
    log = []
    sf = rng.choice([SheetsFactory, SimpleSheetsFactory])(backends=[Be(log, 0, 1, True)])
    bes = list(sf.backends)
    locs = ["/" + "/".join(rng.choice(SEGS) for _ in range(rng.randint(1, 3))) + "%d.xlsx" % j for j in range(2)]
    last = None
    for n in range(1, rng.randint(3, 8)):
        what = rng.choice(["add", "bid", "bid", "drop", "none"])
        if what == "add":
            bes.append(Be(log, n, rng.choice([None, -1, 0, 2, 50, 1000]), True))
            sf.backends.append(bes[-1])
        elif what == "bid":
            rng.choice(bes).b = rng.choice([None, -1, 0, 3, 60, 2000])
        elif what == "drop" and len(bes) > 1:
            sf.backends.remove(bes.pop(rng.randrange(len(bes))))
        loc = rng.choice(locs)
        mon.note(what, "now", bes, "loc=", loc)
        top = max([b.b for b in bes if b.b is not None], default=None)
        if top is None:
            mon.raises(ValueError, sf.decide_backend, loc)
            continue
        winners = [b for b in bes if b.b == top]
        if rng.random() < 0.6:
            got = sf.decide_backend(loc)
            mon.check(any(got is b for b in winners), "decided %r of %r", got, bes)
        else:
            got = sf.list_sheetnames(loc)
            mon.check(got in [["S%d" % b.n] for b in winners], "listed %r of %r", got, bes)
        if last and last is not winners[0]:
            mon.ev("winner-changed")
        last = winners[0]
    mon.ev("evolved")


def w_files(rng, mon, i):
    d = os.path.join(mon.tmp, "d%d" % i)
    segs = [rng.choice(SEGS) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.4:
        segs += ["long" + "x" * rng.randint(60, 120) for _ in range(rng.randint(2, 4))]
    base = rng.choice(["wb", "my book", "Ελ", "b.1"]) + ".xlsx"
    path = os.path.join(d, *(segs + [base]))
    val = rng.randrange(10 ** 6)
    wbk.write(path, {"S": {(0, 0): val, (1, 1): "x"}})
    if len(path) > 200:
        mon.ev("long-path")
    old = os.getcwd()
    rel = "/".join(segs + [base])
    try:
        os.chdir(d)
        os.makedirs(os.path.join(d, "zz"), exist_ok=True)
        first = (segs + [base])[0]
        spellings = {"rel": rel, "abs": path, "dot": "./" + rel, "dotdot": "zz/../" + rel, "url": pathlib.Path(path).as_uri(),
                     "absdotdot": os.path.join(d, "zz", "..", "zz", ".", "..", rel),
                     "rawurl": "file://" + path, "double": d + "//" + rel}
        for k, loc in sorted(spellings.items()):
            mon.note("spelling", k, loc)
            ref = loc + "#S!"
            with xleash.SheetsFactory() as sf:
                how = rng.randrange(3)
                if how == 0:
                    got = xleash.lasso(ref + "A1:B2", sheets_factory=sf)
                elif how == 1:
                    got = xleash.lasso("#S!A1:B2", sheets_factory=sf, url_file=loc)
                else:
                    sf.fetch_sheet(loc, "S")
                    got = xleash.lasso(ref + "A1:B2", sheets_factory=sf)
                mon.eq(got, [[val, None], [None, "x"]], "values of %s location %r" % (k, loc))
                mon.eq(sf.list_sheetnames(loc), ["S"], "sheetnames of %r" % loc)
            mon.ev("spelling")
            mon.key("file", k, segs, base)
        mon.raises(ValueError, xleash.lasso, "no such/%s#S!A1" % base)
        mon.raises(ValueError, xleash.lasso, "%s.unknown#S!A1" % rel[:-5])
    finally:
        os.chdir(old)
    import shutil

    shutil.rmtree(d)


class Server:
    """A loopback http-server of the scratch-dir, one per process."""
    it = None

    def __init__(self, d):
        import functools
        import http.server
        import threading

        class H(http.server.SimpleHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def translate_path(self, path):  # without the params, as the query is
                return super().translate_path(path.partition(";")[0])

        self.pid, self.d = os.getpid(), d
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(H, directory=d))
        self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, args=(0.05,), daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.srv.server_port

    @classmethod
    def get(cls, mon):
        os.environ["no_proxy"] = os.environ["NO_PROXY"] = "*"
        if cls.it is None or cls.it.pid != os.getpid():
            d = os.path.join(mon.tmp, "http%d" % os.getpid())
            os.makedirs(d, exist_ok=True)
            cls.it = cls(d)
        return cls.it


def w_http(rng, mon, i):
    """A workbook served over http(s) opens with the contents of the file served."""
    from urllib.parse import quote

    srv = Server.get(mon)
    rel = "/".join([rng.choice(SEGS) for _ in range(rng.randint(0, 2))] + ["%s%d.xlsx" % (rng.choice(["wb", "my book", "Ελ", "b.1"]), i)])
    path = os.path.join(srv.d, rel)
    sheets = {n: {(r, c): wbk.rand_cell(rng, ["int", "float", "text", "bool"])[0] for r in range(rng.randint(1, 3)) for c in range(rng.randint(1, 3))}
              for n in rng.sample(["S", "Data", "é t"], rng.randint(1, 3))}
    wbk.write(path, sheets)
    url = srv.url + "/" + quote(rel) + rng.choice(["", "", "?v=1", ";v=1", ";logfile"])
    mon.note("url", url, sheets)
    name = rng.choice(list(sheets))
    idx = list(sheets).index(name)
    exp = xleash.lasso("%s#%s!^^:__" % (path, name))
    how = rng.randrange(4)
    with xleash.SheetsFactory() as sf:
        if how == 0:
            got = xleash.lasso("%s#%s!^^:__" % (url, name))
        elif how == 1:
            got = xleash.lasso("%s#%d!^^:__" % (url, idx), sheets_factory=sf)
        elif how == 2:
            got = xleash.lasso("#^^:__", sheets_factory=sf, url_file=url, sh_name=name)
        else:
            first = sf.fetch_sheet(url, 0)
            got = xleash.lasso("#%s!^^:__" % name, sheets_factory=sf, sheet=first)
        mon.check(wbk.close(got, exp), "values of %r: %r, of the file: %r", url, got, exp)
        mon.eq(sf.list_sheetnames(url), list(sheets), "sheetnames of %r" % url)
    os.unlink(path)
    mon.raises(ValueError, xleash.lasso, "%s#%s!^^:__" % (url, name))
    mon.raises(ValueError, xleash.lasso, "http://127.0.0.1:9/a.xlsx#0!^^:__")
    mon.ev("remote")
    mon.key("http", rel, how)


WORKLOADS = [("http", w_http, 60, 1500), ("auction", w_auction, 3000, 80000), ("files", w_files, 160, 3000), ("evolve", w_evolve, 400, 20000)]
