"""P31: names with units, against the parts they were composed of."""
import re

from pandalone import pandata

RULE = ("texts composed of random names (unicode, inner blanks, parentheses, closing brackets of neither kind), blanks, and units in both kinds of brackets; all short texts over an alphabet of brackets, blanks and letters "
        "classified by a character-scanning reference; malformed texts; non-trivial = distinct texts")
FLOORS = {"composed": 4500, "units": 3100, "no-units": 1300, "none": 4500, "exhaustive": 11000, "empty-name": 440, "empty-units": 130, "nested": 450}
BLANKS = [" ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\f"]
CH = "abzAZ09_-+*/^%$#@!?.,:;'\"\\|~`(){}=&éλ中😀°µ"


def blank(rng):
    return "".join(rng.choice(BLANKS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))


def word(rng, n=None):
    return "".join(rng.choice(CH) for _ in range(n or rng.choice([1, 1, 2, 3, 8, 60])))


def phrase(rng, empty=0.1):
    """No blanks at its ends, no brackets."""
    if rng.random() < empty:
        return ""
    return "".join(w for j in range(rng.choice([1, 1, 2, 3])) for w in ((rng.choice(BLANKS) if j else "") + (blank(rng) if j else ""), word(rng)))


def w_composed(rng, mon, i):
    for _ in range(20):
        name = phrase(rng)
        units = None
        text = blank(rng) + name + blank(rng)
        if rng.random() < 0.7:
            units = rng.choice([phrase(rng), blank(rng) + phrase(rng) + blank(rng)])
            o, c = rng.choice(["[]", "<>"])
            if rng.random() < 0.15:  # brackets of the other kind belong to it
                o2, c2 = "<>" if o == "[" else "[]"
                units = rng.choice([o2 + units + c2, units + o2 + c2, o2 + word(rng) + c2 + units, word(rng) + o2 + units + c2 + word(rng)])
                mon.ev("nested")
            text += o + units + c + blank(rng)
        mon.note("text", text)
        got = pandata.parse_value_with_units(text)
        mon.check(got is not None and tuple(got) == (name, units), "%r parsed as %r, expected %r", text, got, (name, units))
        mon.check(got.name == name and got.units == units and type(got)._fields == ("name", "units"), "fields of %r", got)
        mon.ev("composed")
        mon.ev("no-units" if units is None else "units")
        if not name:
            mon.ev("empty-name")
        if units == "":
            mon.ev("empty-units")
        mon.key(text)
        # malformed ones
        x = rng.randrange(5)
        if x == 0:
            bad = text + rng.choice("[<") + phrase(rng)
        elif x == 1 and units is not None:
            bad = text + word(rng) + blank(rng)
        elif x == 2 and units is not None:
            bad = text + rng.choice(["[x]", "<y>", "[]", "<>", "]", ">"]) + blank(rng)
        elif x == 3:
            bad = name + "[" + phrase(rng) + ">" + blank(rng)
        else:
            bad = name + "<" + phrase(rng) + "]" + blank(rng)
        mon.note("text", bad)
        got = pandata.parse_value_with_units(bad)
        mon.check(got is None, "malformed %r parsed as %r", bad, got)
        mon.ev("none")


def ref(s):
    """-> the tuple, None, or NotImplemented for those not specified (closing brackets in names or units)."""
    m = min([s.index(c) for c in "[<" if c in s] or [-1])
    if m < 0:
        return NotImplemented if "]" in s or ">" in s else (s.strip(), None)
    name, rest = s[:m].strip(), s[m:].rstrip()
    if "]" in name or ">" in name:
        return NotImplemented
    close = "]" if rest[0] == "[" else ">"
    if close not in rest:
        return None
    end = rest.index(close)
    if rest[end + 1:]:
        return None
    units = rest[1:end]
    return NotImplemented if re.search(r"[\[\]<>]", re.sub(r"<[^\[\]<>]*>" if close == "]" else r"\[[^\[\]<>]*\]", "", units)) else (name, units)


ALPHA = "[]<>a "


def w_exhaustive(rng, mon, i):
    """All texts over the alphabet, up to 6 (7) characters."""
    parts = 36
    top = 7 if mon.thorough else 6
    n = 0
    for length in range(top + 1):
        for k in range(i % parts, len(ALPHA) ** length, parts):
            s, kk = "", k
            for _ in range(length):
                s += ALPHA[kk % 6]
                kk //= 6
            exp = ref(s)
            if exp is NotImplemented:
                continue
            mon.note("text", s)
            got = pandata.parse_value_with_units(s)
            mon.check(got == exp and (got is None or tuple(map(type, got)) == tuple(map(type, exp))), "%r parsed as %r, expected %r", s, got, exp)
            n += 1
    mon.ev("exhaustive", n)
    mon.key("part", i % parts)


def w_long(rng, mon, i):
    """Long texts parse in time."""
    name, units = word(rng, 3000), word(rng, 3000)
    for s, exp in ((name + " [" + units + "]", (name, units)), (name + " <" + units, None), (name + " " * 300 + "[", None), (" " * 300 + name + " " * 300, (name, None))):
        mon.note("text of length", len(s))
        got = pandata.parse_value_with_units(s)
        mon.check(got == exp, "text of length %s parsed wrong", len(s))
        mon.ev("long")
    for bad in (None, 13, 2.5, []):
        mon.raises(TypeError, pandata.parse_value_with_units, bad)


WORKLOADS = [("composed", w_composed, 500, 30000), ("exhaustive", w_exhaustive, 36, 36), ("long", w_long, 20, 200)]
