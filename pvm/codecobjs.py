"""User classes for the JSON codec (importable, so that they pickle)."""
import collections
import enum


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        from .core import same
        return type(self) is type(other) and same_any(self.__dict__, other.__dict__)

    __hash__ = None


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a=None, b=None):
        self.a, self.b = a, b

    def __eq__(self, other):
        return type(self) is type(other) and same_any(self.a, other.a) and same_any(self.b, other.b)

    __hash__ = None


class Falsy(Plain):
    def __bool__(self):
        return False


class Color(enum.Enum):
    RED = "r=d\r\n"
    BLUE = 2


class MyDict(dict):
    pass


class MyStr(str):
    pass


class MyList(list):
    extra = None


Pt = collections.namedtuple("Pt", "x y")


def func(x):
    return x


def same_any(a, b):
    """Like same(), also for sets, subclasses and ordered containers."""
    from .core import same
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same_any(x, y) and same_any(a[x], b[y]) for x, y in zip(a, b)) and getattr(a, "__dict__", 0) == getattr(b, "__dict__", 0)
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(map(same_any, a, b)) and getattr(a, "__dict__", 0) == getattr(b, "__dict__", 0)
    return same(a, b)
