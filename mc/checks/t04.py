"""T04 - decimal64 leaves accept exactly the decimals of their fraction-digits and ranges, without loss."""
import decimal
from decimal import Decimal

from mc import core, genbind
from mc.valcheck import ALL, run_type
from mc.ytypes import Dec, derive

JUNK = ["", "abc", "1.2.3", "--1", "1,5", "NaN", "Infinity", "-Infinity", "0x10", "1e", " ", "½", [], {}, None, b"1.5x", object]


def values(ty, quick):
    with decimal.localcontext() as c:
        c.prec = 80
        return _values(ty, quick)


def _values(ty, quick):
    fd = ty.fd
    q = Decimal(1).scaleb(-fd)
    pts = set()
    for s in ty.sets:
        for a, b in s:
            pts |= {a, b}
    pts |= {Decimal(0), q, -q, Decimal(2) - q, Decimal(1), Decimal(-1), Decimal("1.5"), Decimal("-2.5"), Decimal(10)}
    pts |= {Decimal(-(2 ** 63)) * q, Decimal(2 ** 63 - 1) * q}
    if not quick:
        pts |= {Decimal(n) * q for n in range(-12, 13)} | {Decimal(10) ** k for k in range(0, 19 - fd)} | {-(Decimal(10) ** k) for k in range(0, 19 - fd)}
    near = set()
    for p in pts:
        for d in (-1, 0, 1) if quick else (-2, -1, 0, 1, 2):
            near.add(p + d * q)
    near |= {Decimal(10) ** 19, -(Decimal(10) ** 19), Decimal(10) ** 25, Decimal(10) ** 40}
    out = []
    for p in sorted(near):
        p = p.quantize(q)
        text = format(p, "f")
        out.append(text)
        out.append(Decimal(text))
        if "." in text and text.rstrip("0").rstrip(".") != text:
            out.append(text.rstrip("0").rstrip("."))
        if p == p.to_integral_value():
            out.append(int(p))
        if Decimal(float(p)) == p:
            out.append(float(p))
    seen, res = set(), []
    for v in out + ["+1.5", "00.5", "-0", "007"] + JUNK:
        k = (type(v), repr(v))
        if k not in seen:
            seen.add(k)
            res.append(v)
    return res


def types(quick):
    out = []
    for fd in (1, 2, 3, 6, 9, 17, 18) if quick else range(1, 19):
        out.append(("decimal64 fd=%d" % fd, Dec(fd)))
        out.append(("decimal64 fd=%d[-1..1.5]" % fd, Dec(fd, "-1..1.5")))
    for fd, r in [
        (2, "0..1"), (2, "1.25"), (2, "0.01 | 0.1..0.2 | 5"), (2, "min..-0.5 | 3..max"), (1, "-0.3..0.3"),
        (3, "1.005 .. 2.675"), (18, "0.1 .. 0.3"), (18, "-9.2..9.2"), (10, "min..0"), (1, "5..max"), (6, "-1.000001..-1 | 1..1.000001"),
        (1, "-922337203685477580.8..0"), (17, "0..92.23372036854775807"), (2, "-90..90"), (5, "-0.00001..0.00001"), (2, "min | 1.5 | max"), (2, "-1 ..\n 1 |\n 2"),
    ]:
        out.append(("decimal64 fd=%d[%s]" % (fd, r), Dec(fd, r)))
    b = Dec(2, "-10..10")
    d0 = derive("d0", b, b)
    out.append(("typedef", derive("d00", Dec(3), Dec(3))))
    out.append(("typedef range", d0))
    e1 = Dec(2, "-10..10", "0..5.25")
    d1 = derive("d1", d0, e1, "range '0..5.25';")
    out.append(("typedef range > range", d1))
    out.append(("typedef range > range > min..max", derive("d2", d1, Dec(2, "-10..10", "0..5.25", "min..1 | 2.5..max"), "range 'min..1 | 2.5..max';")))
    out.append(("typedef > range", derive("d4", derive("d3", Dec(4), Dec(4)), Dec(4, "0.5..0.75"), "range '0.5..0.75';")))
    return out


def run(ctx):
    genbind.warm()
    items = []
    for l, t in types(ctx.quick):
        items.append((l, t, values(t, ctx.quick), ALL, {"few": 10 if ctx.quick else 60}))
    core.pmerge(ctx, run_type, items)
    ctx.bound(
        "%d decimal64 types (fraction-digits %s, ranges of 1-3 parts, typedef chains of up to 3 restrictions); values: every range end and"
        " every end of the 64-bit value space, +-%d units in the last place, as string, Decimal, int, float (where exact), short and padded"
        " spellings, non-numbers; in every context, from unset and from set" % (len(items), "1 2 3 6 9 17 18" if ctx.quick else "1..18", 1 if ctx.quick else 2)
    )
    ctx.assumptions = ["values with more fraction digits than declared are outside the asserted domain (the library rounds them)"]
