"""Every reachable tree shape through a serialisation: bounded breadth-first histories over the structure schemas."""
from mc import core, schemas, serial, tree
from mc.alphabet import ops_for
from mc.explore import Spec, built, run_specs
from mc.tree import C, LL, Leaf, Lst, Mod, Model, Real, Schema
from mc.ytypes import Int, Str

SHAPES = (schemas.basic, schemas.choices, schemas.nested, schemas.presences, schemas.typed, schemas.bitsy, schemas.modules, schemas.orders, schemas.keyless)


class Shape(Spec):
    judge = None  # (schema, bindings, real, model) -> [(aspect, message)]

    def check(self, real, model, op, want):
        if want == "refused":
            return []
        if tree.diff(serial.content(real.snap()), serial.content(model.snap())):
            return []  # a tree that is not what the operations ask for is the concern of other properties
        return type(self).judge(self.schema, built(self.schema), real, model)

    def apply(self, real, model, op, check=True):
        out = super().apply(real, model, op, check)
        if isinstance(out, list) and out and out[0][0] == "outcome":
            return None
        return out


def explore(ctx, judge, skip=(), depth=(3, 4), xpath=(False, True)):
    Shape.judge = staticmethod(judge)
    specs = []
    for f in SHAPES:
        for x in xpath:
            s = f(x)
            if s.label in skip:
                continue
            ops = ops_for(s, good=1, bad=0, badkeys=0, keys=2, llgood=2, lls=("append", "pop"), keyset=False, internal=True)
            specs.append(Shape(s.label + ("/xpath" if x else ""), s, ops, depth[not ctx.quick] - (1 if x else 0)))
    run_specs(ctx, specs)
    long_lists(ctx, judge)


def long_lists(ctx, judge):
    """lists and leaf-lists of every length up to 13 (more than one digit of positions) in several orders"""
    one = lambda n: Leaf(n, Str("1"))
    s = Schema(
        "long",
        Mod(
            "m",
            C(
                "c",
                Lst("u", "k", Leaf("k", Int("uint8")), one("v"), user=True),
                Lst("s", "k", Leaf("k", Int("uint8")), one("v")),
                Lst("t", "k", Leaf("k", Str("1..3")), Lst("i", "k", Leaf("k", Str("1..3")), user=True), user=True),
                LL("ul", Str("1..3"), user=True),
                LL("sl", Int("uint8")),
            ),
        ),
    )
    mod = built(s)
    for n in range(1, 14):
        for perm in (list(range(n)), list(reversed(range(n))), [(5 * i + 2) % n for i in range(n)] if n % 5 else list(range(1, n)) + [0], sorted(range(n), key=str)):
            real, model = Real(s, mod), Model(s)
            ops = []
            for i in perm:
                ops += [("add", ("c", "u"), {"k": i}), ("add", ("c", "s"), {"k": i}), ("add", ("c", "t"), {"k": "k%d" % i})]
                ops += [("ll", ("c", "ul"), "append", str(i)), ("ll", ("c", "sl"), "append", i)]
            ops += [("add", ("c", ("t", "k0"), "i"), {"k": "e%d" % i}) for i in perm]
            for op in ops:
                for side in (real, model):
                    getattr(side, op[0])(*op[1:])
                ctx.transitions += 1
            ctx.states += 1
            ctx.traces += 1
            for aspect, msg in judge(s, mod, real, model):
                ctx.violation("long lists of %d: %s" % (n, aspect), msg + "\nentries in the order %s" % perm)
    ctx.bound("lists and leaf-lists of 1..13 entries in 4 orders")
