"""S06: a leaf-list is the sequence of the accepted values, unique, in order; for every type."""
from decimal import Decimal

from mc import core, tree
from mc.alphabet import split, takes_text
from mc.explore import Spec, run_specs
from mc.tree import C, Ch, LL, Leaf, Lst, Mod, Real, Schema, canon_tag, real_tag
from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, IdRef, Int, Leafref, Reject, Str, Union, derive


class LeafLists(Spec):
    views = True
    disabled_is_clean = True
    inputs = ()  # (spelling, accepted?)

    def real_op(self, real, op):
        name, path, v = op
        o, s = real.cont(path)
        py = s.find(path[-1]).py
        if name == "iadd":  # the statement  o.ll += v
            setattr(o, py, getattr(o, py).__iadd__(v))
        elif name == "delslice":
            del getattr(o, py)[v[0] : v[1]]
        elif name == "popdefault":
            getattr(o, py).pop()
        elif name == "self":
            setattr(o, py, getattr(o, py))
        elif name == "gen":
            getattr(o, py).extend(x for x in v)

    def model_op(self, model, op):
        name, path, v = op
        if name in ("iadd", "gen"):
            model.ll(path, "extend", v)
        elif name == "delslice":
            chain, n = model._ll(path)
            vals = list(n.vals)
            del vals[v[0] : v[1]]
            n.vals = vals
        elif name == "popdefault":
            model.ll(path, "pop", -1)
        elif name == "self":
            chain, n = model._ll(path)
            model.touch(chain)
            n.touched = True

    def extra(self, real, model, op):
        out = []
        for path in self.paths:
            try:
                n = model.node(path)
            except tree.Disabled:
                continue
            out += self.one(real.node(path), n)
        return out[:1]

    def one(self, r, n):
        ty = n.sch.ty
        want = [canon_tag(ty, v) for v in n.vals]
        got = [real_tag(ty, v) for v in r]
        if got != want or len(r) != len(want):
            return [("sequence", "holds %s, expected %s" % (got, want))]
        for i in range(-len(want), len(want)):
            if real_tag(ty, r[i]) != want[i]:
                return [("index access", "[%d] is %r, expected %r" % (i, r[i], want[i]))]
        for i in (len(want), -len(want) - 1):
            try:
                r[i]
                return [("index access", "[%d] of %d entries gives a value" % (i, len(want)))]
            except IndexError:
                pass
        if [real_tag(ty, v) for v in r[0:2]] != want[0:2]:
            return [("slice", "[0:2] is %r" % (r[0:2],))]
        if [real_tag(ty, v) for v in reversed(r)] != want[::-1]:
            return [("reversed", "reversed() disagrees")]
        if [real_tag(ty, v) for v in r.get()] != want:
            return [("get", "get() is %r, expected %r" % (r.get(), want))]
        if not r == list(r) or (want and r == []):
            return [("equality", "the list does not equal the sequence of its values")]
        for v in self.inputs:
            try:
                c = canon_tag(ty, ty.value(v))
            except Reject:
                c = None
            here = c in want
            if (v in r) != here:
                return [("membership", "%r in the leaf-list is %s, it holds %s" % (v, not here, want))]
            try:
                i = r.index(v)
            except ValueError:
                i = None
            if i != (want.index(c) if here else None):
                return [("index", "index(%r) is %r in %s" % (v, i, want))]
        return []


class Twins(LeafLists):
    pass


def types():
    one = Int("uint8", "1..5")
    return [
        (Int("int8"), ["5", 5, 0, "-3", -3], [300, "x"]),
        (Int("uint64"), ["18446744073709551615", 18446744073709551615, 1], ["-1"]),
        (Int("uint8", "1..3 | 7..9"), ["1", 3, 7], [0, 5, "10"]),
        (Str(), ["", "a", "A", "0"], []),
        (Str("1..2"), ["a", "ab", "b"], ["", "abc"]),
        (Str(None, "[a-c]+"), ["a", "b", "cc"], ["d", "a "]),
        (Enum("on", "off", "auto"), ["on", "off", "auto"], ["o", "On"]),
        (Bool(), [True, "true", False, "false"], ["yes", 2]),
        (Binary(), ["YQ==", b"a", "YmM="], []),
        (Dec(2), ["1.5", Decimal("1.50"), 0.25, "-2"], ["x"]),
        (Dec(1, "0..2"), ["1.5", "0"], ["2.1"]),
        (Bits("r", "w", "x"), ["r", "x r", "r x", "w"], ["z", "r z"]),
        (derive("tu8", one, one), ["1", 1, 5], [6, "0"]),
        (derive("ten", Enum("a", "b"), Enum("a", "b")), ["a", "b"], ["c"]),
        (derive("tbits", Bits("r", "w"), Bits("r", "w")), ["r", "w", "w r"], ["z"]),
        (Union(one, Enum("auto"), Str("3")), [1, "1", "auto", "abc"], ["no"]),
        (Union(Enum("1", "2"), Int("int8")), ["1", "3", "03", "7"], ["x", "300"]),
        (derive("tun", Union(Bool(), Enum("on", "off")), Union(Bool(), Enum("on", "off"))), ["false", "on", "true"], ["x"]),
        (Union(Union(one, Enum("z")), Dec(1)), [1, "z", "7.5"], ["q"]),
        (Union(Bits("r", "w"), Str("3")), ["w r", "r w", "abc"], ["no"]),
    ]


def schema(n, ty, xpath=False):
    return Schema(
        "%d %s%s" % (n, ty.text(), "/xpath" if xpath else ""),
        Mod("m", C("c", LL("ll", ty, user=n % 2 == 1), Lst("l", "k", Leaf("k", Str("1")), LL("in", ty)))),
        xpath=xpath,
    )


def ops(path, good, bad):
    out = []
    for v in good + bad:
        out += [("ll", path, "append", v), ("ll", path, "remove", v)]
        for i in (0, 1, -1, 9):
            out.append(("ll", path, "insert", i, v))
        out.append(("ll", path, "setitem", 0, v))
        out.append(("iadd", path, [v]))
    for i in (0, 1, -1, 2, -3):
        out += [("ll", path, "pop", i), ("ll", path, "delitem", i)]
    out += [("popdefault", path, None), ("delslice", path, (0, 2)), ("delslice", path, (1, None)), ("self", path, None), ("ll", path, "clear"), ("unset", path)]
    out += [("ll", path, "assign", list(good)), ("ll", path, "assign", good[::-1]), ("ll", path, "assign", [])]
    out += [("ll", path, "extend", list(good)), ("ll", path, "extend", good[:1] * 2), ("gen", path, list(good[::-1]))]
    for b in bad:
        out += [("ll", path, "assign", good[:1] + [b]), ("ll", path, "extend", good[-1:] + [b]), ("ll", path, "assign", [b])]
    return out


def collide(ctx):
    """values of different members of a union are different values, also if Python finds them equal"""
    from mc.explore import built

    for ty, a, b in ((Union(Int("int8"), Bool()), "1", "true"), (Union(Int("int8"), Bool()), "0", "false"), (Union(Int("int8"), Dec(1)), "1", "1.0")):
        s = Schema("collide " + ty.text(), Mod("m", C("c", LL("ll", ty))))
        for x, y in ((a, b), (b, a)):
            r = Real(s, built(s))
            r.root.c.ll.append(x)
            r.root.c.ll.append(y)
            ctx.transitions += 2
            if len(r.root.c.ll) != 2:
                ctx.violation("leaf-list of %s: %r and %r collide" % (ty.text(), x, y), "the second value was not added: %r" % list(r.root.c.ll), {"yang": s.texts()})


def run(ctx):
    collide(ctx)
    specs = []
    for n, (ty, good, bad) in enumerate(types()):
        p, q = ("c", "ll"), ("c", ("l", "e"), "in")
        for x in (False, True):
            if x and ctx.quick and n % 5:
                continue
            s = schema(n, ty, x)
            o = ops(p, good, bad) + [("add", ("c", "l"), {"k": "e"}), ("ll", q, "append", good[0]), ("ll", q, "remove", good[0]), ("ll", q, "assign", good[::-1])]
            specs.append(LeafLists(s.label, s, o, 3 if ctx.quick else 5, paths=[p, q], inputs=good + bad))
    run_specs(ctx, specs)
