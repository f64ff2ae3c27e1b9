"""T03 - enumeration, bits, boolean, empty, binary: exactly the declared vocabulary, canonical content."""
import itertools

from mc import core, genbind
from mc.valcheck import ALL, run_type, short
from mc.ytypes import Binary, Bits, Bool, Empty, Enum, derive

ENUMS = [
    ("enum", Enum("a", "b", "ab")),
    ("enum case", Enum("UP", "Up", "up")),
    ("enum odd names", Enum("a-b", "a.b", "a b", "a:b", "1", "10", "true", "None", "in", "*", "_x", "é")),
    ("enum values", Enum(("a", 5), ("b", 3), ("c", 0))),
    ("enum value then auto", Enum(("a", 5), "b", "c")),
    ("enum auto then value", Enum("a", "b", ("c", 9), "d")),
    ("enum negative", Enum(("a", -3), "b", ("c", 7), "d")),
    ("enum one", Enum("only")),
    ("enum big", Enum(("a", 2147483646), "b")),
]
BITS = [
    ("bits", Bits(("a", 0), ("b", 1), ("c", 2))),
    ("bits gaps", Bits(("z", 0), ("y", 2), ("x", 10), ("w", 33))),
    ("bits order", Bits(("hi", 12), ("lo", 1), ("mid", 5))),
    ("bits auto", Bits("one", "two", "three")),
    ("bits mixed", Bits(("p", 4), "q", ("r", 1), "s")),
    ("bits single", Bits("solo")),
]
BINS = [("binary", Binary()), ("binary[0..2]", Binary("0..2")), ("binary[3]", Binary("3")), ("binary[1|3..4]", Binary("1 | 3..4")), ("binary[2..max]", Binary("2..max"))]
JUNK = [5, 2.5, [], {}, None, b"a", object]


def near(names):
    out = []
    for n in names:
        out += [n, n.upper(), n.lower(), n + " ", " " + n, n[:-1], n + n, n + "x", n + "\n"]
    return list(dict.fromkeys(out)) + ["", "0", "1", "no-such"]


def bits_values(t, full):
    names = list(t.pos)
    out = [""]
    for n in range(1, len(names) + 1):
        for p in itertools.permutations(names, n):
            out.append(" ".join(p))
    if not full:
        out = out[:40]
    out += ["  ".join(names), " " + names[0], names[0] + "\n" + names[-1], names[0] + " " + names[0]]
    out += [names[0] + " nope", "nope", names[0] + "," + names[-1], names[0].upper() + "X", names[0][:-1] or "q9"]
    return list(dict.fromkeys(out))


def enum_values(item):
    """the integer assigned to each name is the documented mapped value"""
    label, ty, _ = item
    res = core.new_result()
    mod = genbind.build({"m": "module m { namespace 'urn:m'; prefix m; typedef te { %s } container c { leaf l { %s } leaf t { type te; } } }" % (ty.text(), ty.text())})
    c = mod.m().c
    for n, v in ty.base().values.items():
        for leaf in ("l", "t"):
            setattr(c, leaf, n)
            res["transitions"] += 1
            got = getattr(c, leaf).getValue(mapped=True)
            if int(got) != v:
                res["viol"].append(("%s value-of %s leaf=%s" % (label, n, leaf), "numeric value %r, expected %r" % (got, v), {"yang": ty.text()}))
            if getattr(c, leaf).getValue() != n:
                res["viol"].append(("%s name-of %s" % (label, n), "name reads back as %r" % getattr(c, leaf).getValue(), {}))
        res["states"] += 1
        core.bump(res, "mapped %d" % v)
    res["traces"] += len(ty.base().values)
    return res


def bits_ops(item):
    """every sequence of add/discard/remove/clear/pop-free operations up to a depth on a bits leaf"""
    label, ty, depth = item
    res = core.new_result()
    names = list(ty.pos)[:3]
    ops = [("add", n) for n in names] + [("discard", n) for n in names[:2]] + [("remove", names[0]), ("add", "nope"), ("discard", "nope"), ("clear", None)]
    mod = genbind.build({"m": "module m { namespace 'urn:m'; prefix m; container c { leaf l { %s } } }" % ty.text()})
    m = mod.m()
    c = m.c
    seen = {}
    for seq in itertools.product(range(len(ops)), repeat=depth):
        m._unset_c()
        c = m.c
        c.l = ""
        model = set()
        for i in seq:
            op, arg = ops[i]
            b = c.l
            want = "ok"
            if arg == "nope":
                want = "ValueError"
            elif op == "remove" and arg not in model:
                want = "KeyError"
            try:
                getattr(b, op)(*([] if arg is None else [arg]))
                got = "ok"
            except (ValueError, KeyError) as e:
                got = type(e).__name__
            if want == "ok":
                if op == "add":
                    model.add(arg)
                elif op == "clear":
                    model.clear()
                else:
                    model.discard(arg)
            res["transitions"] += 1
            exp = " ".join(sorted(model, key=lambda x: ty.pos[x]))
            if got != want or str(c.l) != exp or not c.l._changed():
                res["viol"].append(
                    (
                        "%s ops=%s" % (label, [ops[j] for j in seq]),
                        "op %s: outcome %s (expected %s), bits %r (expected %r)" % (ops[i], got, want, str(c.l), exp),
                        {"yang": ty.text(), "ops": [ops[j] for j in seq]},
                    )
                )
                break
        seen[str(c.l)] = 1
    res["states"] += len(seen)
    res["traces"] += 1
    core.bump(res, "bits-states", len(seen))
    return res


def run(ctx):
    genbind.warm()
    items = []
    for label, t in ENUMS:
        items.append((label, t, [v for v in near(t.values) + JUNK if not (v is None and "None" in t.values)], ALL, {}))
        td = derive("te", t, t)
        items.append((label + " typedef", derive("tf", td, t), [v for v in near(t.values) + JUNK if not (v is None and "None" in t.values)], ALL, {"few": 6}))
    for label, t in BITS:
        vs = bits_values(t, not ctx.quick)
        lists = ALL
        items.append((label, t, vs, lists, {"few": 30}))
        items.append((label + " typedef", derive("tb", t, t), vs, lists, {"few": 8}))
    bools = [True, False, "true", "false", "", "yes", "no", "TRUE", "tru", " true", "truefalse", "on", "2", 2, -1, [], {}, None, "null", b"true"]
    items.append(("boolean", Bool(), bools, ALL))
    items.append(("boolean typedef", derive("tb", Bool(), Bool()), bools, ALL))
    empt = [True, "", "yes", "x", 2, [], {}, None, "null"]
    items.append(("empty", Empty(), empt, ("leaf", "state")))
    items.append(("empty typedef", derive("tb", Empty(), Empty()), empt, ("leaf", "state")))
    import base64

    raw = [b"", b"\x00", b"a", b"ab", b"abc", b"abcd", b"abcde", b"\xff\xfe", bytes(range(256)), b"a b", b"YWJj"]
    if not ctx.quick:
        raw += [bytes([i]) for i in range(256)] + [bytes([i, 255 - i, i]) for i in range(256)]
    for label, t in BINS:
        vs = raw + [base64.b64encode(r).decode() for r in raw] + ["YQ", 5, 2.5, [], {}, None]
        items.append((label, t, vs, ALL, {"few": 10, "list_skip": ("", b"")}))
        items.append((label + " typedef", derive("tb", t, t), vs, ALL, {"few": 4, "list_skip": ("", b"")}))
    b0 = Binary("0..3")
    items.append(("binary typedef length > length", derive("t1", derive("t0", b0, b0), Binary("2..3"), "length '2..max';"), raw, ALL, {"list_skip": ("", b"")}))
    core.pmerge(ctx, run_type, items)
    core.pmerge(ctx, enum_values, [(l, t, 0) for l, t in ENUMS])
    core.pmerge(ctx, bits_ops, [(l, t, 3 if ctx.quick else 4) for l, t in BITS if len(t.pos) > 1])
    ctx.bound(
        "%d enumerations (direct and typedef'd twice), %d bits types (all orderings of subsets%s), boolean, empty, %d binary types;"
        " values: every member, near misses (case, prefix, suffix, white space, doubled) and non-string junk, in every context,"
        " from unset and set; all sequences of length %d of in-place bit operations"
        % (len(ENUMS), len(BITS), ", first 40" if ctx.quick else "", len(BINS), 3 if ctx.quick else 4)
    )
