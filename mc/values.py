"""The type matrix of the serialisation checks: every type, in every position, with every value of its alphabet."""
from decimal import Decimal

from mc import core, serial, tree
from mc.alphabet import takes_text
from mc.explore import built
from mc.tree import C, LL, Leaf, Lst, Mod, Model, Real, Schema, canon_tag, unwrap
from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, IdRef, Int, Leafref, Reject, Str, Typedef, Union, derive

TEXTS = ["a", "", " ", "a b", " a ", "5", "05", "1e3", "true", "null", "None", "[null]", "a:b", "m:a", 'q"q', "it's", "<&>]]>", "\u00e9\u4e2d", "x\ny", "x\ty", "a/b", "{}", "%s", "0x10", "inf", "\U0001f600", "1.50", "-", "A B C"]


IDS = IdRef("o:root", {"here": "m", "sub": "m", "far": "o", "third": "p"}, "m")
IDS.pfx = {"here": ("m",), "sub": ("m",), "far": ("o",), "third": ("p",)}


def types(thorough=False):
    """(name, type, values)"""
    out = []
    for k in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"):
        t = Int(k)
        lo, hi = t.sets[0][0]
        out.append((k, t, [lo, hi, 0, 1, -1 if lo else 2, hi - 1, str(hi), 2**53 + 1 if hi > 2**53 else 7]))
    r64 = Int("int64", "-5..9007199254740993")
    out.append(("int64 range", r64, [-5, 0, 9007199254740993]))
    t64 = derive("t64", Int("uint64"), Int("uint64"))
    out.append(("uint64 typedef", t64, [0, 2**64 - 1, 2**53 + 1]))
    tt64 = derive("tt64", t64, Int("uint64", "1..max"), 'range "1..max";')
    out.append(("uint64 typedef typedef", tt64, [1, 2**64 - 1]))
    t8 = derive("t8", Int("int8"), Int("int8", "-3..3"), 'range "-3..3";')
    out.append(("int8 typedef", t8, [-3, 0, 3]))
    out.append(("string", Str(), TEXTS))
    out.append(("string restricted", Str("0..5", "[a-z 0-9]*"), ["", "a", " ", "a b", "12345"]))
    ts = derive("ts", Str("0..5"), Str("0..5"))
    out.append(("string typedef", ts, ["", "a", "5", "true"]))
    out.append(("enumeration", Enum("on", "off", "1", "true", "null", "a b", "x.y-z", "0"), ["on", "1", "true", "null", "a b", "x.y-z", "0"]))
    te = derive("te", Enum("A", ("B", 7)), Enum("A", ("B", 7)))
    out.append(("enumeration typedef", te, ["A", "B"]))
    out.append(("boolean", Bool(), [True, False, "true", "false"]))
    tb = derive("tb", Bool(), Bool())
    out.append(("boolean typedef", tb, [True, False]))
    out.append(("empty", Empty(), [True]))
    temp = derive("temp", Empty(), Empty())
    out.append(("empty typedef", temp, [True]))
    for fd in (1, 2, 9, 18):
        t = Dec(fd)
        lo, hi = t.sets[0][0]
        u = Decimal(1).scaleb(-fd)
        out.append(("decimal64 %d" % fd, t, [lo, hi, hi - u, Decimal(0), u, -u, "1.5", 5, Decimal("0.1"), "0.30"]))
    rd = Dec(2, "-1.5..100000000000000.01")
    out.append(("decimal64 range", rd, [Decimal("-1.5"), 0, "0.07", Decimal("100000000000000.01")]))
    td = derive("td", Dec(3), Dec(3))
    out.append(("decimal64 typedef", td, ["1.001", 0, "9007199254740.993"]))
    out.append(("binary", Binary(), [b"", b"a", b"\x00\xff\xfe", "YWJj", b"true", b"YQ=="]))
    tbi = derive("tbi", Binary("0..4"), Binary("0..4"))
    out.append(("binary typedef", tbi, [b"", b"\xff\xff"]))
    out.append(("bits", Bits("r", "w", "x"), ["r", "x r", "", "w"]))
    tbt = derive("tbt", Bits(("b", 4), ("a", 2), "c"), Bits(("b", 4), ("a", 2), "c"))
    out.append(("bits typedef", tbt, ["c b", "a b", ""]))
    ids = IDS
    out.append(("identityref", ids, ["here", "sub", "far", "third"]))
    tid = derive("tid", ids, ids)
    out.append(("identityref typedef", tid, ["here", "far"]))
    out.append(("union int bool", Union(Int("int8"), Bool()), [5, 0, 1, "true", "false", "-1"]))
    out.append(("union bool int", Union(Bool(), Int("int8")), [5, "true", "false", 7]))
    out.append(("union enum int64", Union(Enum("auto", "none"), Int("int64")), ["auto", 5, 2**60 + 1, "none", "-7"]))
    out.append(("union int64 string", Union(Int("int64"), Str()), [5, "x", "5x", ""]))
    out.append(("union dec enum", Union(Dec(2), Enum("auto")), ["1.25", "auto", 3]))
    out.append(("union enum string", Union(Enum("on"), Str("2..3")), ["on", "ab", "12"]))
    out.append(("union bits int", Union(Bits("r", "w"), Int("uint8", "1..9")), ["w r", 5, "r"]))
    out.append(("union typedefs", Union(t8, te), [0, -3, "A", "B"]))
    tu = derive("tu", Union(Int("uint8"), Enum("max")), Union(Int("uint8"), Enum("max")))
    out.append(("union typedef", tu, [5, 0, "max"]))
    out.append(("union nested", Union(tu, Union(Bool(), ts)), [5, "max", "true", "zz", ""]))
    out.append(("union strings", Union(Str(None, "[0-9.]+"), Str(None, "[a-f:]+")), ["1.2", "1", "a:b", "05"]))
    return out


def uses_ids(ty):
    ty = unwrap(ty)
    if isinstance(ty, Union):
        return any(uses_ids(m) for m in ty.members)
    return isinstance(ty, IdRef)


def schema(label, ty, xpath=False):
    """the type as leaf, in a list entry, as the only and as one of two keys, as leaf-list, below an augmentation"""
    e = isinstance(unwrap(ty), Empty)
    kids = [Leaf("a", ty), C("n", Leaf("b", ty)), Lst("e", "k", Leaf("k", Str("1")), Leaf("v", ty))]
    if not e:
        kids.append(LL("ll", ty))
        kids.append(Lst("l", "k", Leaf("k", ty), Leaf("w", Str("1"))))
        kids.append(Lst("d", "x y", Leaf("x", Str("1")), Leaf("w", Str("1")), Leaf("y", ty)))
    mods = [Mod("m", C("c", *kids))]
    if uses_ids(ty):
        mods = [
            Mod("m", C("c", *kids), imports=("o",), body="identity here { base o:root; } identity sub { base here; }"),
            Mod("o", body="identity root; identity far { base root; }"),
            Mod("p", imports=("o",), body="identity third { base o:root; }"),
            Mod("w", imports=("m", "o"), augments=[("/m:c", [C("wc", Leaf("z", IDS), LL("zl", IDS))])]),
        ]
    return Schema(label, *mods, xpath=xpath)


def states(schema, values):
    """histories that put every value in every place, alone and together with others"""
    ops = []
    kids = {k.name: k for k in schema.root.kids[0].kids}
    for v in values:
        ops.append([("set", ("c", "a"), v)])
        ops.append([("set", ("c", "n", "b"), v), ("set", ("c", "a"), v)])
        ops.append([("add", ("c", "e"), {"k": "p"}), ("set", ("c", ("e", "p"), "v"), v), ("add", ("c", "e"), {"k": "o"})])
        if "ll" in kids:
            ops.append([("ll", ("c", "ll"), "append", v)])
            if v not in ("", b""):  # the library has no entries with an empty key
                ops.append([("add", ("c", "l"), {"k": v})])
                ops.append([("add", ("c", "d"), {"x": "1", "y": v})])
    if "wc" in kids:
        ops += [[("set", ("c", "wc", "z"), v)] for v in values]
        ops.append([("ll", ("c", "wc", "zl"), "append", v) for v in values])
    if "ll" in kids:
        ops.append([("ll", ("c", "ll"), "append", v) for v in values])
        ops.append([("ll", ("c", "ll"), "append", v) for v in reversed(values)])
        values = [v for v in values if v not in ("", b"")]
        ops.append([("add", ("c", "l"), {"k": v}) for v in values])
        ops.append([("add", ("c", "l"), {"k": v}) for v in reversed(values)])
        ops.append([("add", ("c", "d"), {"x": x, "y": v}) for v in values for x in "12"])
    return ops


def explore(ctx, check, xpath=(False, True), limit=None):
    """check(schema, bindings, real, model) -> [(aspect, message)] in every state; all types in parallel"""
    _CHECK[0] = check
    items = [(i, x) for i in range(len(types())) for x in xpath]
    for res in core.pmap(_one, items):
        ctx.merge(res)
    ctx.bound("%d types x %s: every value of the type's alphabet as leaf, nested leaf, leaf in a list entry, leaf-list value, only key and one of two keys, and all of them together" % (len(types()), "with and without a path registry" if len(xpath) == 2 else "plain"))


_CHECK = [None]


def _one(item):
    i, x = item
    name, ty, values = types()[i]
    s = schema(name + ("/xpath" if x else ""), ty, x)
    res = core.new_result()
    try:
        mod = built(s)
    except Exception as e:
        res["viol"].append(("%s: bindings unusable" % s.label, repr(e)[:2000], {"yang": s.texts()}))
        return res
    for hist in states(s, values):
        helper = serial.helper_for(s).get("path_helper")
        real, model = Real(s, mod, helper), Model(s)
        bad = None
        for op in hist:
            try:
                getattr(model, op[0])(*op[1:])
            except tree.Refuse:
                continue  # another spelling of a key that is there
            try:
                getattr(real, op[0])(*op[1:])
            except Exception as e:
                bad = ("set", "%s was refused: %r" % (tree.op_text(op), str(e)[:200]))
                break
            res["transitions"] += 1
        v = [bad] if bad else _CHECK[0](s, mod, real, model)
        res["states"] += 1
        res["traces"] += 1
        core.bump(res, "%s %s" % (name, hist[0][1][1] if isinstance(hist[0][1][1], str) else "entry"))
        for aspect, msg in v:
            res["viol"].append(("%s: %s: %s" % (s.label, "; ".join(tree.op_text(o) for o in hist)[:120], aspect), msg + "\nhistory: " + "; ".join(tree.op_text(o) for o in hist), {"yang": s.texts()}))
    return res
