"""P30: JSON-codec round-trips."""
import collections
import datetime
import decimal
import fractions
import io
import json
import uuid

import numpy as np
import pandas as pd
from pandalone import pandata
from pandalone.pandata import JSONCodec

from pvm import codecobjs as co
from pvm.codecobjs import same_any

RULE = ("random nested picklable objects (containers with non-text keys, all byte values and lengths, texts with quoted-printable-hostile runs, numbers incl. huge/NaN/inf, dates, arrays, "
        "Series/tables/indices, enums, user classes, shared and cyclic references) encoded into texts and files with several json options; result must be valid JSON, decode to an equal object of equal type; "
        "every byte at every column of the encoding's lines; non-trivial = distinct encodings")
FLOORS = {"roundtrip": 4500, "file": 1100, "nested-text": 360, "reformatted": 350, "column": 9200, "size": 1900, "cycle": 130, "reused": 200, "type:DataFrame": 40, "type:Series": 220, "type:bytes": 240, "type:str": 610, "type:dict": 530, "type:float": 190}
ENC, DEC = JSONCodec.Encoder, JSONCodec.Decoder
HOSTILE = ["\r\n", "\r", "\n", "=", "=\n", "=\r\n", "=3D", " ", "\t", " \n", "\t\r\n", ".", "\n.\n", "_", "\0", "\x7f", "\x80", "\xff", "\"", "\\", "\u2028", "é", "😀", "\ud800", "$qpickle", "_ver", "From ", "</script>", "{", "[]"]


def text(rng):
    n = rng.choice([0, 1, 2, 5, 30, 74, 75, 76, 77, 200])
    x = rng.random()
    if x < 0.3:
        return "".join(rng.choice(HOSTILE) for _ in range(n))
    if x < 0.6:
        return "".join(rng.choice(HOSTILE) if rng.random() < 0.2 else rng.choice("abcXYZ 019") for _ in range(n))
    if x < 0.8:
        return rng.choice(HOSTILE) * n
    return "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0xd800), rng.randrange(0x110000)])) for _ in range(n))


def blob(rng):
    n = rng.choice([0, 1, 2, 3, 74, 75, 76, 77, 150, 300, 3000])
    if rng.random() < 0.4:
        return rng.choice([b"\r", b"\n", b"\r\n", b"=", b" ", b"\t", b".", b"\0", b"\xff", b"\n\r"]) * n
    pool = rng.choice([bytes(range(256)), b"\r\n=", b" \t\n", b"\n.\r", b"abc =\n"])
    return bytes(rng.choice(pool) for _ in range(n))


def scalar(rng):
    f = rng.choice([
        lambda: text(rng), lambda: text(rng), lambda: blob(rng), lambda: blob(rng),
        lambda: rng.choice([None, True, False, 0, 1, -1, 0.0, -0.0, 1e300, float("nan"), float("inf"), -float("inf"), 0.1, Ellipsis, NotImplemented]),
        lambda: rng.getrandbits(rng.choice([8, 31, 32, 64, 200, 3000])) * rng.choice([1, -1]),
        lambda: complex(rng.random(), 2), lambda: decimal.Decimal("1.10"), lambda: fractions.Fraction(1, 3), lambda: uuid.UUID(int=rng.getrandbits(128)),
        lambda: datetime.datetime(2020, rng.randint(1, 12), 13, 13, 10, 13, rng.randrange(10**6)), lambda: datetime.date(2013, 10, 13), lambda: datetime.timedelta(13, 10),
        lambda: datetime.time(13, 10), lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc),
        lambda: co.Color.RED, lambda: co.Color.BLUE, lambda: range(3, 13, 10), lambda: slice(1, None),
        lambda: co.MyStr(text(rng)), lambda: co.func, lambda: co.Plain, lambda: int, lambda: bytearray(blob(rng)),
        lambda: np.float32(1.5), lambda: np.int64(13), lambda: np.datetime64("2013-10-13"), lambda: pd.Timestamp("2013-10-13 10:13"), lambda: pd.Timedelta("13h"), lambda: pd.NaT,
    ])
    return f()


def array(rng):
    x = rng.randrange(9)
    n = rng.choice([0, 1, 3, 13, 40])
    if x == 0:
        return np.array([rng.choice([1.5, np.nan, np.inf, 13.0]) for _ in range(n)])
    if x == 1:
        return np.array([rng.choice([10, 13, 61, 32]) for _ in range(n)], dtype=rng.choice(["i8", "i2", "u1", "f4", "c16"]))
    if x == 2:
        return np.array([scalar(rng) for _ in range(n)] + [None], dtype=object)[:n]
    if x == 3:
        return np.arange(n * 2).reshape(2, n)[:, ::-1]
    if x == 4:
        return np.array(["a\r\n", "=", ""] * n, dtype=str)
    if x == 5:
        return pd.Series([rng.choice([1.5, np.nan, 13.0]) for _ in range(n)], name=text(rng), dtype=float)
    if x == 6:
        return pd.Series([text(rng) for _ in range(n)], index=[text(rng) for _ in range(n)], dtype=object)
    if x == 7:
        return pd.DataFrame({text(rng): [rng.choice([1.0, np.nan]) for _ in range(n)] for _ in range(3)})
    return pd.DataFrame({"a": list(range(n)), ("b", 1): [text(rng) for _ in range(n)], "d": pd.date_range("2013-10-13", periods=n, freq="13h" if n else None)})


def obj(rng, depth):
    x = rng.random()
    if not depth or x < 0.3:
        return scalar(rng)
    if x < 0.42:
        return array(rng)
    k = rng.choice([0, 0, 1, 2, 3, 4])
    sub = lambda: obj(rng, depth - 1)
    key = lambda: rng.choice([text(rng), rng.randrange(20), None, (1, "\r\n"), 2.5, True, frozenset([1]), b"\r\n", datetime.date(2013, 10, 13), co.Color.RED])
    x = rng.randrange(14)
    if x < 4:
        return {key(): sub() for _ in range(k)}
    if x < 6:
        return [sub() for _ in range(k)]
    if x == 6:
        return tuple(sub() for _ in range(k))
    if x == 7:
        return {key() for _ in range(k)}
    if x == 8:
        return rng.choice([co.Plain, co.Falsy])(**{"a%s" % i: sub() for i in range(k)})
    if x == 9:
        return co.Slots(sub(), sub())
    if x == 10:
        return collections.OrderedDict((key(), sub()) for _ in range(k))
    if x == 11:
        return rng.choice([co.MyList, collections.deque])(sub() for _ in range(k))
    if x == 12:
        return co.Pt(sub(), sub())
    d = co.MyDict((key(), sub()) for _ in range(k))
    if rng.random() < 0.5:
        d.attr = text(rng)
    return d


OPTS = [{}, {}, {"indent": 2}, {"indent": "\t"}, {"sort_keys": True}, {"ensure_ascii": False}, {"separators": (",", ":")}, {"separators": (" , ", " : "), "indent": 0}]


def roundtrip(mon, rng, o, same=same_any):
    opts = rng.choice(OPTS)
    how = rng.randrange(4)
    mon.note("object", repr(o)[:600], "options", opts, "how", how)
    if how == 0:
        fp = io.StringIO()
        json.dump(o, fp, cls=ENC, **opts)
        s = fp.getvalue()
        mon.ev("file")
    elif how == 1:
        s = "".join(ENC(**opts).iterencode(o))
    else:
        s = json.dumps(o, cls=ENC, **opts)
    mon.check(type(s) is str, "encoded into a %s", type(s))
    try:
        strict = json.loads(s, parse_constant=lambda c: 1 / 0)
    except Exception as ex:
        mon.fail("invalid JSON (%s): %s", ex, s[:500])
    mon.check(isinstance(strict, dict), "not a JSON object")
    how = rng.randrange(3)
    got = json.loads(s, cls=DEC) if how == 0 else json.load(io.StringIO(s), cls=DEC) if how == 1 else json.loads(s.encode(), cls=DEC)
    mon.check(same(o, got), "%r decoded as %r", o, got)
    mon.ev("roundtrip")
    mon.ev("type:" + type(o).__name__)
    mon.key(s)
    return s, got


def w_objects(rng, mon, i):
    for _ in range(8):
        o = obj(rng, rng.choice([0, 1, 2, 3, 4]))
        s, got = roundtrip(mon, rng, o)
        if rng.random() < 0.2:
            # re-encoding what was decoded, and the text itself
            roundtrip(mon, rng, got)
            roundtrip(mon, rng, s)
            mon.ev("nested-text")
        if rng.random() < 0.2:
            # what a reader without the codec sees survives re-formatting by it
            again = json.dumps(json.loads(s), indent=rng.choice([None, 1]), sort_keys=rng.random() < 0.5)
            mon.check(same_any(json.loads(again, cls=DEC), o), "re-formatted JSON decoded differently")
            mon.ev("reformatted")


def w_bytes(rng, mon, i):
    """Byte i after k fillers, so that it meets every column of the encoded lines, at end & before line-breaks."""
    b = bytes([i % 256])
    for k in range(80):
        o = rng.choice([b"x", b" ", b"="]) * k + b + rng.choice([b"", b"\n", b"\r\n", b" ", b"=", b"\r", b"x" * 80])
        if rng.random() < 0.3:
            o = o.decode("latin1")
        s = json.dumps(o, cls=ENC)
        mon.note("bytes", o)
        got = json.loads(s, cls=DEC)
        mon.check(type(got) is type(o) and got == o, "%r decoded as %r", o, got)
        mon.ev("column")
    mon.key("byte", i % 256)


def w_sizes(rng, mon, i):
    """Containers/arrays whose pickles hold length-bytes of every value (13, 10, 61, ...)."""
    n = i % 400
    for o in ([None] * n, "x" * n, bytes(n), list(range(n, n + 20)), {k: k for k in range(n % 80)}, np.arange(n), pd.Series(range(n), dtype=float), n, -n, n << 8, n / 7):
        roundtrip(mon, rng, o)
        mon.ev("size")


def w_shared(rng, mon, i):
    """References shared within the object stay shared, and cycles are supported."""
    inner = [text(rng), blob(rng)]
    o = {"a": inner, "b": [inner, inner], 3: co.Plain(x=inner)}
    _, got = roundtrip(mon, rng, o)
    mon.check(got["a"] is got["b"][0] is got["b"][1] is got[3].x, "shared references got separated")
    cyc = [text(rng)]
    cyc.append(cyc)
    p = co.Plain(x=cyc)
    p.me = p
    for c in (cyc, p):
        got = json.loads(json.dumps(c, cls=ENC), cls=DEC)
        mon.check(type(got) is type(c) and (got[1] is got and got[0] == c[0] if c is cyc else got.me is got and got.x[1] is got.x), "cycle lost")
        mon.ev("cycle")
    # Nothing is kept between uses of the same instances, nor the object changed.
    enc, dec = ENC(), DEC()
    objs = [obj(rng, 2) for _ in range(3)]
    texts = [enc.encode(x) for x in objs]
    for x, t in zip(objs, texts):
        mon.note("object", repr(x)[:600])
        mon.check(same_any(dec.decode(t), x), "decoded differently by reused instances")
        mon.ev("reused")


WORKLOADS = [("objects", w_objects, 500, 15000), ("bytes", w_bytes, 256, 2560), ("sizes", w_sizes, 400, 2000), ("shared", w_shared, 150, 5000)]
