"""T01 - integer leaves accept exactly the integers of their effective range."""
from mc import core
from mc.valcheck import ALL, run_type
from mc.ytypes import Int, derive

KINDS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
JUNK = ["", "abc", "1.5", "-", "--1", "1 2", "0xZZ", "1e3", [], {}, None, object]

RANGES = ["0..9", "5", "1 | 3..4 | 10..max", "min..3", "min..2 | 100..max", "1..2|5..6", "0 .. 7", "2..max", "min | 7 | max", "1..2 |\n 4..6", "1\n ..\n 3 | 9"]
SIGNED = ["-5..5", "-10..-3", "-100 | -7..-2 | 0", "min..-1", "-10..0", "min..0 | 5"]
CHAINS = [
    ("0..100", "10..20 | 30"),
    ("0..100", "min..5"),
    ("0..100", "95..max"),
    ("1..10 | 20..30", "5..8 | 25..max"),
    ("1..50", "2..40", "3 | 5..7"),
    ("1..50 | 60", "min | 7..9 | max"),
]


def types(thorough):
    out = []
    for k in KINDS:
        out.append((k, Int(k)))
        wide = thorough or k in ("int8", "uint8", "int64", "uint64")
        for r in RANGES if wide else RANGES[:4]:
            out.append(("%s[%s]" % (k, r), Int(k, r)))
        if not k.startswith("u"):
            for r in SIGNED if wide else SIGNED[:2]:
                out.append(("%s[%s]" % (k, r), Int(k, r)))
        for ch in CHAINS if wide else CHAINS[-1:]:
            t = Int(k, ch[0])
            for i in range(1, len(ch)):
                t = derive("t%d" % i, t, Int(k, *ch[: i + 1]) if i == 1 else Int(k, *ch[:i]), None)
                # restriction is added by the deriving statement
                t = derive("r%d" % i, t, Int(k, *ch[: i + 1]), 'range "%s";' % ch[i])
            out.append(("%s{%s}" % (k, " > ".join(ch)), t))
        # plain typedef of the unrestricted type
        out.append(("%s typedef" % k, derive("td", Int(k), Int(k))))
    return out


def values(ty, thorough):
    base = ty.base()
    pts = set()
    for s in base.sets:
        for a, b in s:
            pts.update((a, b))
    for bits in (7, 8, 15, 16, 31, 32, 63, 64):
        if thorough or bits in (base.bits, base.bits - 1):
            pts.update((2 ** bits, -(2 ** bits)))
    pts.add(0)
    vals = set()
    for p in pts:
        vals.update((p - 1, p, p + 1))
    vals = sorted(vals, key=lambda x: (abs(x), x < 0))
    texts = vals if thorough else [x for x in vals if x - 1 in pts or x + 1 in pts or x in pts and abs(x) < 200][:24]
    return vals + [str(x) for x in texts] + ["+5", "007"] + JUNK


def run(ctx):
    from mc import genbind

    genbind.warm()
    items = []
    for label, ty in types(not ctx.quick):
        vs = values(ty, not ctx.quick)
        opts = {"few": 7, "always": ["5", "", None]} if ctx.quick else {}
        items.append((label, ty, vs, ALL, opts))
        b = ty.base()
        if b.bits == 8 and (not ctx.quick or "|" in label or "[" not in label):
            items.append((label + " all8", ty, list(range(-300, 301)), ("leaf",) if ctx.quick else ALL))
        if b.bits == 16 and not ctx.quick:
            for lo in range(-33000, 66000, 11000):
                items.append((label + " all16 from %d" % lo, ty, list(range(lo, lo + 11000)), ("leaf",)))
    core.pmerge(ctx, run_type, items)
    ctx.bound(
        "8 integer kinds x {no range, %d ranges, %d typedef chains}; values: every range end and 2^k, +-1, as int and"
        " as text, %d malformed values; all of -300..300 for 8-bit types%s; contexts leaf (every value) and (quick: 7 accepted, 7 refused values and the fixed ones) leaf-list (append, assign),"
        " list key, union member, union leaf-list, read-only leaf; from unset and from set"
        % (len(RANGES) + len(SIGNED), len(CHAINS), len(JUNK), "" if ctx.quick else "; all of -33000..66000 for 16-bit")
    )
    ctx.assumptions = ["floats and booleans offered to integer leaves are outside the asserted domain (duck typing)"]
