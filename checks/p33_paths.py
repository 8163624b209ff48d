"""P33: paths to urls and back, normalizations, expansions."""
import contextlib
import os
import posixpath
import re
import shutil
import string
import urllib.parse as up

from pandalone import utils

RULE = ("random posix paths (absolute, relative, dot-segments, repeated slashes, unicode, blanks, any length) from working folders with odd names, http(s) urls with credentials, ports, queries and fragments, "
        "variables set and unset in any position with all expansion flags; against segment-wise reference normalization; non-trivial = distinct paths")
FLOORS = {"norm": 2700, "quote": 2700, "slash": 3300, "no-slash": 3100, "url": 1500, "url-long": 290, "http": 1200, "http-nopath": 90, "expanded": 940, "unexpanded": 1000, "value-with-expandables": 60, "url-expanded": 680, "url-unexpanded": 540}
PLAIN = string.ascii_letters + string.digits + "_-+=,@&()'! é中"


def seg(rng, extra=""):
    if rng.random() < 0.03:
        return "L" * rng.choice([100, 201, 255])
    s = "".join(rng.choice(PLAIN + extra) for _ in range(rng.choice([1, 1, 2, 3, 8])))
    return s if s.strip() == s else s.replace(" ", "_") if rng.random() < 0.7 else "x" + s


def rand_path(rng, extra="", doubled=True):
    n = rng.choice([0, 1, 1, 2, 3, 5, 60])
    segs = [rng.choice([".", "..", ".h", "a.b", "..."]) if rng.random() < 0.25 else seg(rng, extra) for _ in range(n)]
    if doubled and rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            segs.insert(rng.randint(0, len(segs)), "")
    p = "/".join(segs)
    x = rng.random()
    p = "/" + p if x < 0.4 else p
    if p and rng.random() < 0.4:
        p += "/"
    return p


def ref_norm(p):
    lead = re.match("/*", p).group()
    root = "" if not lead else "//" if len(lead) == 2 else "/"
    out = []
    for s in p.split("/"):
        if s in ("", "."):
            continue
        if s == ".." and (out and out[-1] != ".." or root):
            if out:
                out.pop()
        else:
            out.append(s)
    res = root + "/".join(out) or "."
    return res + "/" if p.endswith("/") and not res.endswith("/") else res


def ref_abs(p, cwd):
    return ref_norm(p if p.startswith("/") else cwd + "/" + p)if p else cwd


@contextlib.contextmanager
def folder(mon, rng, name=None):
    d = os.path.join(mon.tmp, "p33")
    full = os.path.join(d, *(name or rng.choice(["w", "a b", "é中", "x%41", "q#?;&", "d.d/e", "a:b", "$HOME", "~"])).split("/"))
    os.makedirs(full)
    cwd, env = os.getcwd(), dict(os.environ)
    os.chdir(full)
    try:
        yield full
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(d)


def slashed(mon, given, got):
    mon.check(given.endswith("/") == got.endswith("/") or got.strip("/") == "", "trailing slash of %r, converted to %r", given, got)
    mon.ev("slash" if given.endswith("/") else "no-slash")


def w_norm(rng, mon, i):
    with folder(mon, rng) as cwd:
        for _ in range(40):
            p = rand_path(rng, "%#?;:$~*[]{}<>|\"")
            mon.note("path", p, "cwd", cwd)
            mon.eq(utils.normpath(p), ref_norm(p) if p else ".", "normalized %r" % p)
            mon.eq(utils.abspath(p), ref_abs(p, cwd), "absolutized %r" % p)
            std = posixpath.normpath(p)
            mon.check(utils.normpath(p).rstrip("/") == std.rstrip("/"), "%r normalized other than the standard %r", p, std)
            slashed(mon, p, utils.normpath(p)) if p else None
            slashed(mon, p, utils.abspath(p)) if p else None
            mon.eq(utils.normpath(utils.normpath(p)), utils.normpath(p), "normalized twice %r" % p)
            mon.eq(utils.convpath(p, abs_path=True, exp_user=False, exp_vars=False), ref_abs(p, cwd), "convpath w/o expansions")
            mon.eq(utils.convpath(p, abs_path=False, exp_user=False, exp_vars=False), ref_norm(p) if p else ".", "convpath w/o anything")
            mon.ev("norm")
            mon.key(p)
            # quoting, both ways
            u = utils.path2urlpath(p)
            mon.check(set(u) <= set(string.ascii_letters + string.digits + "_.-~/%"), "%r quoted as %r", p, u)
            mon.check(up.unquote(u) == p, "%r quoted as %r", p, u)
            mon.eq(utils.urlpath2path(u), p, "unquoted quoted %r" % p)
            if "%" not in p:
                mon.eq(utils.urlpath2path(p), p, "unquoted %r" % p)
            mon.ev("quote")


def okurl(p):
    """The domain of path2url(): see the note of the property."""
    first = p.split("/")[0]
    return p and p.strip() == p and ":" not in first and not p.startswith("//") and not (p.startswith("/") and "//" in p and {".", ".."} & set(p.split("/")))


def w_url(rng, mon, i):
    with folder(mon, rng) as cwd:
        for _ in range(30):
            p = rand_path(rng, "$~*:|")
            if not okurl(p):
                continue
            mon.note("path", p, "cwd", cwd)
            url = utils.path2url(p)
            exp = ref_abs(p, cwd)
            parts = up.urlsplit(url)
            mon.check(url.startswith("file:///") and parts.scheme == "file" and not parts.netloc and not parts.query and not parts.fragment, "%r became %r", p, url)
            back = utils.urlpath2path(parts.path)
            if p.split("/")[-1] in (".", ".."):
                mon.eq(back.rstrip("/"), exp.rstrip("/"), "path %r back from url" % p)
            else:
                mon.eq(back, exp, "path %r back from url" % p)
                slashed(mon, p, url)
            mon.eq(utils.path2url(url), url, "url of url %r" % url)
            mon.ev("url")
            mon.ev("url-long" if len(exp) > 200 else "url-short")
            mon.key(p)
        for _ in range(5):
            p = "D" + seg(rng)
            mon.eq(utils.path2url(p), utils.path2url("./" + p), "url of %r" % p)
        mon.eq(utils.path2url(""), "", "url of nothing")
        for dots, exp in ((".", cwd), ("..", posixpath.dirname(cwd)), ("./", cwd)):
            mon.eq(utils.urlpath2path(up.urlsplit(utils.path2url(dots)).path).rstrip("/"), exp, "url of %r" % dots)


def w_http(rng, mon, i):
    with folder(mon, rng):
        for _ in range(30):
            scheme = rng.choice(["http", "https"])
            net = rng.choice(["h", "ser.ver.org", "u:p@h", "h:8080", "127.0.0.1:80", "[::1]:8", "usr@h.x"])
            p = rand_path(rng, "$~*:|").lstrip("/")
            p = "/" + p if p or rng.random() < 0.5 else ""
            if "//" in p and ".." in p:
                continue
            q = rng.choice(["", "q=1&b=../x//y", "a=b%20c&x=/z/", "~", "u=http://x/../y"])
            f = rng.choice(["", "frag", "a/../b", "/x/"])
            url = scheme + "://" + net + p + ("?" + q if q else "") + ("#" + f if f else "")
            mon.note("url", url)
            exp = (ref_norm(p) if p else "")
            exp = scheme + "://" + net + exp + ("?" + q if q else "") + ("#" + f if f else "")
            flags = rng.choice([(), (False, True), (False, False)])
            got = utils.path2url(url, *flags)
            mon.eq(got, exp, "url")
            mon.eq(utils.path2url(got), got, "url again")
            mon.ev("http")
            mon.ev("http-nopath" if not p else "http-path")
            mon.key(url)


def expand(p, user, env, do_vars, do_user):
    if do_user:
        p = re.sub("^~(?=/|$)", lambda m: user.rstrip("/"), p)
    if do_vars:
        p = re.sub(r"\$(?:(\w+)|\{([^}]*)\})", lambda m: env.get(m.group(1) or m.group(2), m.group()), p, flags=re.A)
    return p


def w_expand(rng, mon, i):
    with folder(mon, rng, "w") as cwd:
        home = rng.choice(["/home/me", "/h m/é", "/h"])
        os.environ["HOME"] = home
        env = {}
        for v in ["A", "BB", "a_1", "A1", "NUM"]:
            if rng.random() < 0.7:
                env[v] = rng.choice(["val", "x/y", "../up", "v w", "é", "7"])
        env["ABS"] = "/abs/dir"
        env["NIL"] = ""
        env["REF"] = rng.choice(["$A/x", "${BB}", "p$REF"])
        env["TIL"] = rng.choice(["~", "~/t"])
        for v in list(os.environ):
            if v != "HOME":
                del os.environ[v]
        os.environ.update(env)
        env["HOME"] = home
        for _ in range(30):
            toks = []
            for _ in range(rng.randint(1, 4)):
                v = rng.choice(["A", "BB", "a_1", "A1", "NUM", "UNSET", "HOME"])
                toks.append(rng.choice([seg(rng), "$" + v, "${" + v + "}", "x${" + v + "}y", "$" + v + ".e", "$" + v + "$A", "~", "a~b", "~x~", "$", "..", "pre$" + v, "${NIL}z"]))
            p = "/".join(toks)
            x = rng.random()
            p = "~/" + p if x < 0.25 else "$ABS/" + p if x < 0.35 else "$TIL/" + p if x < 0.4 else "$REF/" + p if x < 0.45 else "/" + p if x < 0.5 else "~" if x < 0.53 else p
            if rng.random() < 0.3:
                p += "/"
            do_vars, do_user, do_abs = (rng.random() < 0.5 for _ in range(3))
            if "~" == p[:1] and p[:2] not in ("~", "~/") and do_user:
                continue    # other users
            if "//" in p:
                continue
            mon.note("path", p, "env", env, "vars", do_vars, "user", do_user, "abs", do_abs)
            ex = expand(p, home, env, do_vars, do_user)
            got = utils.convpath(p, abs_path=do_abs, exp_user=do_user, exp_vars=do_vars)
            mon.eq(got, ref_abs(ex, cwd) if do_abs else ref_norm(ex) if ex else ".", "converted path")
            mon.ev("expanded" if ex != p else "unexpanded")
            if ("$REF" in p or "$TIL" in p) and do_vars:
                mon.ev("value-with-expandables")
            mon.key(p, do_vars, do_user)
            if do_vars and do_user and do_abs:
                mon.eq(utils.convpath(p), got, "by default")
            # url: ''~' out of variables is not at stake
            if okurl(ex) and okurl(p) and "$TIL" not in p and not re.search(r"[{}]", ex) and ex.split("/")[-1] not in (".", ".."):
                url = utils.path2url(p, expandvars=do_vars, expanduser=do_user)
                back = utils.urlpath2path(up.urlsplit(url).path)
                mon.eq(back, ref_abs(ex, cwd), "path back from url %r" % url)
                if not do_vars and not do_user:
                    mon.eq(utils.path2url(p), url, "no expansions by default")
                mon.ev("url-expanded" if ex != p else "url-unexpanded")


WORKLOADS = [("norm", w_norm, 150, 5000), ("url", w_url, 150, 5000), ("http", w_http, 100, 3000), ("expand", w_expand, 150, 5000)]
