"""P38: names, pairs and texts reshaped; lists out of anything."""
import collections
import os

import numpy as np
from pandalone import utils
from pandalone.mappings import Pstep

RULE = ("random camel-, snake- and mixed-cased names, multi-line texts with all kinds of blanks, pairs with keys of all lengths around the multiples of the indent, and objects of all kinds; "
        "compared with character-by-character references and with laws of the results; non-trivial = distinct inputs")
FLOORS = {"blank": 330, "line": 1000, "name": 2100, "pair": 2600, "pairs": 900, "same": 1300, "sequence": 1300, "single": 350, "split": 840}
PIECES = ["CO2", "Dice", "App", "a", "b2", "X", "ABC", "aB", "Z9", "foo", "_", "-", " ", "É", "éA", "2X", "9", ".", "ß", "İ", "aBC", "XyZ", "nEDC2"]


def snake(s):
    out = ""
    for k, c in enumerate(s):
        prev = s[k - 1] if k else ""
        if "A" <= c <= "Z" and prev and ("a" <= prev <= "z" or "0" <= prev <= "9"):
            out += "_"
        out += c
    return out.lower()


def w_case(rng, mon, i):
    for name, exp in (("CO2DiceApp", "co2_dice_app"), ("", ""), ("foo", "foo"), ("fooBar", "foo_bar"), ("HTTPServer", "httpserver")):
        mon.eq(utils.camel_to_snake_case(name), exp, "snake of %r" % name)
    for _ in range(40):
        s = "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 5)))
        if rng.random() < 0.2:
            s = "".join(rng.choice("aZ09_- bY.É") for _ in range(rng.randint(0, 12)))
        mon.note("name", s)
        got = utils.camel_to_snake_case(s)
        mon.check(got == snake(s), "snake-case of %r is %r, expected %r", s, got, snake(s))
        mon.check(utils.camel_to_snake_case(got) == got, "snake-case of %r is not stable", got)
        mon.check(got.replace("_", "") == s.lower().replace("_", ""), "snake-case of %r lost letters: %r", s, got)
        cmd = utils.camel_to_cmd_name(s)
        mon.check(cmd == snake(s).replace("_", "-"), "command-name of %r is %r", s, cmd)
        mon.ev("name")
        mon.ev("split" if "_" in got and "_" not in s else "same")
        mon.key(s)


BLANKS = ["", " ", "\t", "   ", "\r", "\f", "\u00a0", "\u3000", "\v "]
TEXTS = ["a", "First line.", "x  y", "é", "0", "#", "'", "\\n", "- a\tb"]


def w_lines(rng, mon, i):
    for _ in range(30):
        lines = [rng.choice(BLANKS) + (rng.choice(TEXTS) if rng.random() < 0.4 else "") + rng.choice(BLANKS) for _ in range(rng.randint(1, 6))]
        text = "\n".join(lines)
        mon.note("text", text)
        exp = next((l.strip() for l in lines if l.strip()), None)
        got = utils.first_line(text)
        mon.check(got == exp and (exp is not None or got is None), "first line of %r is %r, not %r", text, got, exp)
        mon.ev("line" if exp else "blank")
        mon.key("line", text)


def w_pairs(rng, mon, i):
    for _ in range(20):
        indent = rng.choice([None, 16, 1, 2, 4, 7, 8, 20, 33, 64, 128, 200, 1000])
        w = indent or 16
        items = []
        for _ in range(rng.randint(0, 6)):
            n = max(0, rng.choice([0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w, rng.randint(0, 50)]))
            key = "".join(rng.choice("abcXYZ_ %é.") for _ in range(n))
            items.append((key, rng.choice([1, 2.5, None, "txt", "", True, [1, 2], "%s", {"a": 1}, (1,), (1, 2), "a = b", np.int64(3)])))
        mon.note("pairs", items, "indent", indent)
        arg = rng.choice([list, tuple, iter])(items)
        if rng.random() < 0.2:
            od = collections.OrderedDict(items)
            arg, items = od.items(), list(od.items())
        got = utils.format_pairs(arg) if indent is None else utils.format_pairs(arg, indent) if rng.random() < 0.5 else utils.format_pairs(arg, indent=indent)
        exp = []
        for k, v in items:
            width = w
            while width < len(k):
                width += w
            exp.append(k + " " * (width - len(k)) + " = " + str(v))
        mon.eq(got, "\n".join(exp), "formatted pairs")
        mon.ev("pairs")
        mon.ev("pair", len(items))
        mon.key(got)


class Seq(collections.UserList):
    pass


class Text(str):
    pass


def w_lists(rng, mon, i):
    for _ in range(10):
        items = [rng.choice([1, None, "a", "", [], (1, 2), 2.5]) for _ in range(rng.randint(0, 4))]
        for o in (items, tuple(items), Seq(items), range(len(items)), collections.deque(items)):
            mon.note("sequence", o)
            got = utils.as_list(o)
            mon.check(type(got) is list and len(got) == len(o) and all(a is b or a == b for a, b in zip(got, o)), "as_list(%r) gave %r", o, got)
            mon.ev("sequence")
    for o in ("", "abc", Text("ab"), Pstep("ab"), None, 0, 1.5, {}, {"a": 1}, {1, 2}, object(), np.array([1, 2]), (x for x in ()), len, True):
        mon.note("object", o)
        got = utils.as_list(o)
        mon.check(type(got) is list and len(got) == 1 and got[0] is o, "as_list(%r) gave %r", o, got)
        mon.ev("single")


WORKLOADS = [("case", w_case, 120, 3000), ("lines", w_lines, 100, 2500), ("pairs", w_pairs, 100, 2500), ("lists", w_lists, 60, 1000)]
