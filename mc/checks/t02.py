"""T02 - string leaves accept exactly the strings allowed by every length and pattern of their type."""
import itertools

from mc import core
from mc.valcheck import ALL, run_type
from mc.ytypes import Str, Reject, Ty, derive, parse_ranges, inside
import re

LENGTHS = ["2", "1..3", "0..1 | 3", "min..2", "3..max", "0 | 2..3", "1|3", "0 | 2 .. 3", "min | 2", "0..1 |\n 3", "1\n .. 2"]
PATTERNS = [
    "a", "[a-c]+", "a|bb", "(a|b)c", "a*b?", "[0-9]{2}", "[^a]b", "a.b", ".*", "a|", "ab|ba|1", "(ab)?", r"\d+", r"a\.b",
    r"\$1", "[a$]+", "(a|1)(b|c)*", r"\p{L}+", "a{1,2}b{0,1}", "[a-c1]*[ab]", "a$", "^b", "(a)|(b)|1", r"[^ \n]+", "b+|c+a?",
]


class Multi(Ty):
    """string with several length/pattern constraints, all of which apply"""

    def __init__(self, text, lens=(), pats=(), notpats=()):
        self.t, self.lens, self.pats, self.notpats = text, [parse_ranges(x, 0, 2 ** 64, int) for x in lens], pats, notpats

    def text(self):
        return self.t

    def value(self, v):
        if not isinstance(v, str) or not all(inside(len(v), r) for r in self.lens):
            raise Reject(v)
        if not all(re.fullmatch(p, v) for p in self.pats) or any(re.fullmatch(p, v) for p in self.notpats):
            raise Reject(v)
        return v

    obs = Str.obs


def model_pattern(p):
    # what the YANG pattern means, in Python's regex dialect
    if p == "a$":
        return "a"  # documented leniency: a trailing $ is an anchor
    if p == "^b":
        return "b"
    return p.replace(r"\p{L}", "[a-zA-Zé]")


def types():
    out = [("string", Str())]
    for l in LENGTHS:
        out.append(("length[%s]" % l, Str(l)))
    for p in PATTERNS:
        out.append(("pattern[%s]" % p, Multi("type string { pattern '%s'; }" % p, pats=[model_pattern(p)])))
    for l, p in [("1..2", "a*b*"), ("2", "a|bb|ab1"), ("0 | 3", "[abc]*"), ("2..max", "(ab|1)+"), ("min..1 | 3", "a.*")]:
        out.append(("length[%s]+pattern[%s]" % (l, p), Multi("type string { length '%s'; pattern '%s'; }" % (l, p), [l], [p])))
        out.append(("pattern[%s]+length[%s]" % (p, l), Multi("type string { pattern '%s'; length '%s'; }" % (p, l), [l], [p])))
    # two patterns in one type statement: both apply
    out.append(("two patterns", Multi("type string { pattern 'a.*'; pattern '.*b'; }", pats=["a.*", ".*b"])))
    out.append(("three patterns", Multi("type string { pattern '[abc]*'; pattern 'a.*'; pattern '.*c'; }", pats=["[abc]*", "a.*", ".*c"])))
    out.append(("two patterns+length", Multi("type string { pattern 'a.*'; pattern '.*b'; length '2'; }", ["2"], ["a.*", ".*b"])))
    # restrictions accumulated over typedefs
    p0 = Str(pattern="[abc]*")
    out.append(("typedef pattern > length", derive("d1", derive("d0", p0, p0), Multi("", ["1..2"], ["[abc]*"]), "length '1..2';")))
    out.append(("typedef pattern > pattern", derive("d1", derive("d0", p0, p0), Multi("", [], ["[abc]*", "a.*"]), "pattern 'a.*';")))
    l0 = Str("1..3")
    d0 = derive("d0", l0, l0)
    out.append(("typedef length > length", derive("d1", d0, Multi("", ["1..3", "2..3"]), "length '2..max';")))
    out.append(("typedef length > length, keywords", derive("d1", d0, Multi("", ["1..3", "1 | 3"]), "length 'min | max';")))
    out.append(("typedef length > pattern > length, keyword", derive("d2", derive("d1", d0, Multi("", ["1..3"], ["a*|1*"]), "pattern 'a*|1*';"), Multi("", ["3"], ["a*|1*"]), "length 'max';")))
    out.append(("typedef length > pattern", derive("d1", d0, Multi("", ["1..3"], ["a*|1*"]), "pattern 'a*|1*';")))
    d1 = derive("d1", d0, Multi("", ["1..3"], ["[ab1]*"]), "pattern '[ab1]*';")
    out.append(("typedef length > pattern > pattern", derive("d2", d1, Multi("", ["1..3"], ["[ab1]*", "a.*"]), "pattern 'a.*';")))
    d2 = derive("d2", d1, Multi("", ["1..3", "2"], ["[ab1]*"]), "length '2';")
    out.append(("typedef length > pattern > length", d2))
    out.append(("typedef x4", derive("d3", d2, Multi("", ["1..3", "2"], ["[ab1]*", ".b|1."]), "pattern '.b|1.';")))
    # inverted pattern (recorded finding)
    out.append(("invert-match", Multi("type string { pattern 'a.*' { modifier invert-match; } }", notpats=["a.*"])))
    return out


def values(quick):
    alpha = ["a", "b", "1", "c", "\n", "$", ".", " ", "é"]
    vals = [""]
    for n in (1, 2):
        vals += ["".join(t) for t in itertools.product(alpha, repeat=n)]
    vals += ["".join(t) for t in itertools.product(alpha[:4] if quick else alpha, repeat=3)]
    vals += [x + "\n" for x in ("ab", "bb", "a$")] + ["abab", "aabb", "1111", "bb1", "bba", "ax", "xa", "abcd", "cab", "ab" * 40]
    if not quick:
        vals += ["".join(t) for t in itertools.product(alpha[:5], repeat=4)]
    return list(dict.fromkeys(vals))


def run(ctx):
    from mc import genbind

    genbind.warm()
    vs = values(ctx.quick)
    items = [(l, t, vs, ALL, {"few": 10 if ctx.quick else 60, "always": ["", "a\n", "bb\n", "a", "ab"]}) for l, t in types()]
    core.pmerge(ctx, run_type, items)
    ctx.bound(
        "%d string types (lengths, patterns, both, several patterns, typedef chains up to 4); values: every string over"
        " {a b 1 c newline $ . space e-acute} up to length 2 and over %s of length 3%s; leaf context gets all, leaf-list, list"
        " key, union member, union leaf-list, read-only leaf get a selection; from unset and from set"
        % (len(items), "{a b 1 c}" if ctx.quick else "all nine", "" if ctx.quick else " and {a b 1 c newline} of length 4")
    )
    ctx.assumptions = [
        "non-string Python values offered to string leaves are outside the asserted domain (duck typing: str(value))",
        "a pattern's leading ^ and trailing unescaped $ are anchors, as the library documents; XSD-only escapes (\\i, \\c) are not used",
    ]
