"""Key schemas used by the checks on catalogues."""
from oups import sublevel, toplevel


@toplevel
class One:
    name: str


@sublevel
class SubInt:
    num: int


@toplevel
class Two:
    name: str
    sub: SubInt


@sublevel
class Leaf:
    name: str
    num: int


@sublevel
class Mid:
    name: str
    leaf: Leaf


@toplevel(fields_sep="_")
class Three:
    num: int
    name: str
    mid: Mid


@toplevel
class Pair:
    name: str
    num: int


def two(a, b):
    return Two(a, SubInt(b))


def three(i, a, b, c, j):
    return Three(i, a, Mid(b, Leaf(c, j)))


KEYS = {
    "One": (One, [One("a"), One("b"), One("ab"), One("0")]),
    "Two": (Two, [two("a", 1), two("a", 2), two("b", 1), two("b", 12)]),
    "Three": (Three, [three(1, "a", "x", "l", 1), three(1, "a", "x", "l", 2), three(1, "a", "y", "l", 1), three(2, "a", "x", "l", 1)]),
    "Pair": (Pair, [Pair("a", 1), Pair("a", 12), Pair("", 1), Pair("b", 1)]),
}
