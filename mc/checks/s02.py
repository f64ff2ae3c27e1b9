"""S02: two instances of the same bindings, driven by every interleaving of histories, never influence each other."""
from mc import core, schemas, tree
from mc.alphabet import ops_for
from mc.explore import REFUSED, Spec, run_specs
from mc.tree import C, Ch, Case, LL, Leaf, Lst, Mod, Model, Real, Schema
from mc.ytypes import Binary, Bits, Dec, Int, Str, Union


class Pair:
    """several objects behind the interface of one; operations name the one they are for"""

    def __init__(self, members):
        self.members = members

    def snap(self):
        return tuple(m.snap() for m in self.members)

    def view(self, filt=True):
        return [m.view(filt) if isinstance(m, Real) else m.view(None, filt) for m in self.members]


class Two(Spec):
    def start(self):
        rs, ms = [], []
        for _ in range(2):
            r, m = Spec.start(self)
            rs.append(r)
            ms.append(m)
        return Pair(rs), Pair(ms)

    def apply(self, real, model, op, check=True):
        who, op = op[0], op[1:]
        return super().apply(real, model, (op[0], ("#%d" % who,) + op[1]) + op[2:], check)

    def model_op(self, model, op):
        getattr(model.members[int(op[1][0][1:])], op[0])(op[1][1:], *op[2:])

    def real_op(self, real, op):
        getattr(real.members[int(op[1][0][1:])], op[0])(op[1][1:], *op[2:])

    def check(self, real, model, op, want):
        out = []
        for i, (r, m) in enumerate(zip(real.members, model.members)):
            d = tree.diff(tree.mask(r.snap()), tree.mask(m.snap()))
            if d:
                return [("instance %d" % i, d)]
            for f in (True, False):
                if r.view(f) != m.view(None, f):
                    return [("instance %d view" % i, "get(filter=%s) gives %s, expected %s" % (f, tree.short(r.view(f)), tree.short(m.view(None, f))))]
        # what is created now starts out empty
        r, m = Spec.start(self)
        d = tree.diff(tree.mask(r.snap()), tree.mask(m.snap()))
        if d or r.view(False) != m.view(None, False):
            return [("new instance", "a new instance is not empty: %s" % d)]
        if real.members[0].helper is not None:
            for i, r in enumerate(real.members):
                own = set(ids(self.schema.root, r.root))
                for x in r.helper.get("//*"):
                    if id(x) not in own and x is not r.root and type(x).__name__ != "FakeRoot":
                        return [("registry %d" % i, "the registry finds an object of another tree: %s" % "/".join(x._path()))]
        return out

    def digest(self, real, model):
        return core.h((real.snap(), model.snap()))


def ids(sch, o):
    for k in sch.kids:
        r = getattr(o, k.py)
        yield id(r)
        if k.kind == "container":
            yield from ids(k, r)
        elif k.kind == "list":
            for t in list(r):
                yield id(r[t])
                yield from ids(k, r[t])


def mutable(xpath=False):
    """values that are objects with state of their own, and defaults of such types"""
    return Schema(
        "mutable",
        Mod(
            "m",
            C(
                "c",
                Leaf("b", Bits("r", "w"), default="w"),
                LL("ll", Union(Int("uint8", "1..5"), Str("1"))),
                Lst("l", "k", Leaf("k", Str("1")), Leaf("lb", Bits("r", "w"), default="r"), LL("z", Str("1")), C("n", Leaf("d", Dec(1), default="1.5"), presence=True)),
                Ch("ch", Leaf("x", Str("1")), Leaf("y", Binary(), default="YQ==")),
            ),
        ),
        xpath=xpath,
    )


def run(ctx):
    specs = []
    for f in (schemas.basic, schemas.choices, schemas.presences, mutable):
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=1, bad=0, badkeys=0, llgood=1, lls=("append", "pop"), keyset=False, keys=2 if f is mutable else 1)
            if f is mutable:
                extra = []
                for o in ops:
                    p = tuple((n[0], "b") if isinstance(n, tuple) else n for n in o[1])
                    if p != o[1] and o[0] != "delete":
                        extra.append((o[0], p) + o[2:])
                ops += extra  # the same inside a second entry of the list
            specs.append(Two(s.label + ("/xpath" if x else ""), s, [(i,) + o for o in ops for i in (0, 1)], 2 if ctx.quick else 3))
    run_specs(ctx, specs)
