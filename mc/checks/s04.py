"""S04: defaults are reported until a leaf is set, and again once it is unset."""
from mc import core, tree
from mc.alphabet import ops_for
from mc.explore import Spec, run_specs
from mc.tree import C, Ch, LL, Leaf, Lst, Mod, Schema, canon_tag, leaf_default, real_tag
from mc.ytypes import Binary, Bits, Bool, Dec, Enum, Int, Str, Typedef, Union, derive


class Defaults(Spec):
    def extra(self, real, model, op):
        return self.leaves(self.schema.root, real.root, "")

    def leaves(self, sch, o, path):
        out = []
        for k in sch.kids:
            r = getattr(o, k.py)
            if k.kind == "leaf":
                d = leaf_default(k)
                want = None if d is None else canon_tag(k.ty, d)
                got = r.default() if hasattr(r, "default") else r._default
                got = None if got is False and not hasattr(got, "_get") or got is None else real_tag(k.ty, got)
                if got != want:
                    out.append(("default", "%s/%s: default() is %r, expected %r" % (path, k.name, got, want)))
            elif k.kind == "container":
                out += self.leaves(k, r, path + "/" + k.name)
            elif k.kind == "list":
                for t in list(r):
                    out += self.leaves(k, r[t], path + "/" + k.name)
        return out[:1]


def types():
    """(type, defaults to declare)"""
    small = Int("uint8", "1..9")
    t0 = Typedef("t0", small, small, default="4")
    t1 = Typedef("t1", t0, small)
    t2 = Typedef("t2", t1, small, default="5")
    ts = derive("ts", Str("0..3"), Str("0..3"), default="ab")
    te = derive("te", Enum("on", "off"), Enum("on", "off"), default="off")
    tb = derive("tb", Bool(), Bool(), default="false")
    tu = derive("tu", Union(Int("uint8", "1..5"), Str("1..2")), Union(Int("uint8", "1..5"), Str("1..2")), default="zz")
    tbt = derive("tbt", Bits("r", "w", "x"), Bits("r", "w", "x"), default="x r")
    td = derive("td", Dec(2), Dec(2), default="1.50")
    u = Union(Int("int8"), Enum("auto", "none"))
    return [
        (Int("int8"), ["0", "-3", "7"]),
        (Int("uint64"), ["18446744073709551615"]),
        (Int("uint8", "1..9"), ["9"]),
        (Str(), ["", "x", "0", "False", "a b", "it's", 'q"q', "b\\\\n", "%s{}", "\u00e9", "None"]),
        (Str("2"), ["zz"]),
        (Str(None, "[a-c]+"), ["abc"]),
        (Enum("on", "off"), ["on"]),
        (Bool(), ["true", "false"]),
        (Dec(2), ["0", "1.5", "-2.25"]),
        (Dec(1, "1..5"), ["1", "5.0"]),
        (Binary(), ["YQ=="]),
        (Bits("r", "w", "x"), ["r", "x w"]),
        (u, ["auto", "5", "0"]),
        (t0, [None, "3"]),
        (t1, [None, "3"]),
        (t2, [None, "4", "3"]),
        (ts, [None, "c", ""]),
        (te, [None, "on"]),
        (tb, [None, "true"]),
        (tu, [None, "1", "y"]),
        (tbt, [None, "w"]),
        (td, [None, "2"]),
        (Union(t0, Enum("z")), ["z", "7"]),
        (derive("tuu", Union(t0, ts), Union(t0, ts)), ["abc", "9"]),
    ]


def schema(n, ty, d):
    l = lambda name: Leaf(name, ty, default=d)
    return Schema(
        "%d %s default %r" % (n, ty.text(), d),
        Mod("m", C("c", l("a"), C("n", l("b")), Lst("l", "k", Leaf("k", Str("1")), l("v")), Ch("ch", Leaf("o", Str("1")), l("cl")))),
    )


def run(ctx):
    specs = []
    for n, (ty, ds) in enumerate(types()):
        for d in [None] + [x for x in ds if x is not None]:
            if d is None and ds[0] is not None and n not in (0, 3):
                continue
            s = schema(n, ty, d)
            from mc.alphabet import split

            g, a, b = split(ty)
            vals = [v for v in g[:2] + ([d] if d is not None else []) + b[:1]]
            ops = []
            for p in (("c", "a"), ("c", "n", "b"), ("c", ("l", "k"), "v"), ("c", "cl")):
                ops += [("set", p, v) for v in vals] + [("unset", p)]
            ops += [("unset", ("c", "n")), ("add", ("c", "l"), {"k": "k"}), ("set", ("c", "o"), "x"), ("unset", ("c",))]
            specs.append(Defaults(s.label, s, ops, 2 if ctx.quick else 4, views=True))
    run_specs(ctx, specs)
