"""The schemas the tree checks explore."""
from mc.tree import C, Case, Ch, LL, Leaf, Lst, Mod, Schema
from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, Int, Str, Union, derive


def basic(xpath=False):
    """leaf kinds, defaults, nesting, presence, list, leaf-list"""
    return Schema(
        "basic",
        Mod(
            "m",
            C(
                "c",
                Leaf("a", Int("uint8", "1..9")),
                Leaf("d", Str("0..3"), default="dd"),
                C("n", Leaf("x-y", Enum("on", "off")), C("p", Leaf("q", Bool()), presence=True)),
                LL("ll", Int("uint8", "1..9")),
                Lst("l", "k", Leaf("k", Str("1..2")), Leaf("v", Int("int8", "-5..5")), C("in", LL("z", Str("1")))),
            ),
        ),
        xpath=xpath,
    )


def choices(xpath=False):
    return Schema(
        "choices",
        Mod(
            "m",
            C(
                "c",
                Ch(
                    "ch",
                    Case("one", Leaf("a", Int("uint8", "1..9")), LL("al", Str("1"))),
                    Case("two", C("b", Leaf("x", Str("1")), Ch("inner", Leaf("i1", Str("1")), Leaf("i2", Str("1"))))),
                    Case("three", Lst("t", "k", Leaf("k", Str("1")), Leaf("v", Str("1")))),
                ),
                Ch("other", Leaf("o1", Str("1")), Leaf("o2", Str("1"))),
                Leaf("plain", Str("1")),
            ),
        ),
        xpath=xpath,
    )


def nested(xpath=False):
    """choices directly within cases; choices, of the same name, inside containers and lists of cases"""
    one = lambda n: Leaf(n, Str("1"))
    rc = C("rc", one("z"), Ch("x", one("y1"), one("y2")))
    inner = Ch("w", Case("a", one("q")), Case("b", one("r"), rc))
    u = Lst("u", "k", one("k"), one("v"), Ch("x", one("u1"), one("u2")))
    return Schema(
        "nested",
        Mod("m", C("c", Ch("x", Case("a", one("p"), inner), Case("b", LL("s", Str("1")), Ch("y", one("t"), u))))),
        xpath=xpath,
    )


def presences(xpath=False):
    """presence containers nested in each other, in lists and in choices"""
    one = lambda n: Leaf(n, Str("1"))
    return Schema(
        "presences",
        Mod(
            "m",
            C(
                "c",
                C("p", one("x"), C("pp", one("y"), presence=True), C("np", C("deep", one("z"), presence=True)), presence=True),
                C("e", presence=True),
                Lst("l", "k", one("k"), C("lp", one("w"), presence=True)),
                Ch("ch", Case("a", C("ca", one("v"), presence=True)), Case("b", one("b"))),
            ),
            C("top", presence=True),
        ),
        xpath=xpath,
    )


def bitsy(xpath=False):
    b = Bits("r", ("w", 5), "x", "a")
    return Schema(
        "bitsy",
        Mod("m", C("c", Leaf("f", b), Ch("ch", Leaf("g", b, default="w r"), Leaf("h", Str("1"))), LL("bl", Bits("r", "w")))),
        xpath=xpath,
    )


def typed(xpath=False):
    """one node of every kind of type, under a choice, a presence container and a list with two keys"""
    return Schema(
        "typed",
        Mod(
            "m",
            C(
                "c",
                Ch("ch", Case("x", Leaf("d", Dec(2, "0..9"))), Case("y", Leaf("e", Enum("on", "off")), LL("u", Union(Int("uint8", "1..5"), Enum("auto"))))),
                C("p", Leaf("b", Bool()), Leaf("bt", Bits("r", "w")), LL("ls", Str("1..2")), presence=True),
                Lst("l", "k\n j", Leaf("k", Int("uint8", "1..9")), Leaf("j", Enum("A", "B")), Leaf("v", derive("td", Str("2"), Str("2"))), C("in", LL("z", Int("int8", "0..3")))),
            ),
        ),
        xpath=xpath,
    )


def modules(xpath=False):
    """a tree that three modules contribute to, with names and identities that repeat between them"""
    one = lambda n: Leaf(n, Str("1"))
    return Schema(
        "modules",
        Mod(
            "m",
            C("c", one("a"), C("n", one("b")), Lst("l", "k", one("k"), one("v"))),
            C("d", LL("z", Int("int64"))),
            one("tl"),
            LL("tll", Str("1")),
        ),
        Mod(
            "w",
            imports=("m",),
            augments=[
                ("/m:c", [one("wa"), C("wc", one("a"), C("n", LL("z", Str("1")))), Lst("wl", "k", one("k"), one("a"))]),
                ("/m:c/m:l", [one("wv"), C("wn", one("v"))]),
            ],
        ),
        Mod("y", imports=("m", "w"), augments=[("/m:c/w:wc", [one("ya"), C("yc", one("a"))]), ("/m:c/m:n", [LL("yl", Dec(2))])]),
        xpath=xpath,
    )


def orders(xpath=False):
    """user- and system-ordered lists, in each other"""
    one = lambda n: Leaf(n, Str("1"))
    return Schema(
        "orders",
        Mod(
            "m",
            C(
                "c",
                Lst("u", "k", one("k"), one("v"), Lst("i", "k", one("k"), LL("z", Str("1"), user=True), user=True), user=True),
                Lst("s", "k", one("k"), Lst("i", "j  k", one("j"), one("k"), user=True)),
                LL("ul", Str("1..2"), user=True),
            ),
        ),
        xpath=xpath,
    )


def keyless(xpath=False):
    one = lambda n: Leaf(n, Str("1"))
    return Schema(
        "keyless",
        Mod("m", C("c", Lst("l", None, one("v"), LL("z", Str("1")), C("in", one("w")), Lst("ll", "k", one("k"), one("v")), config=False), C("s", one("t")))),
        xpath=xpath,
    )
