"""X01: the path registry mirrors the tree: every live node at its path, and nothing else."""
from mc import schemas, tree
from mc.alphabet import ops_for
from mc.explore import Spec, run_specs
from mc.tree import C, LL, Leaf, Lst, Mod, Schema
from mc.ytypes import Dec, Enum, Int, Str


def live(sch, o, steps):
    """[(steps, object)] of the live nodes below a real container; a step is a name or (name, [(key, text)])"""
    out = []
    for k in sch.kids:
        r = getattr(o, k.py)
        if k.kind in ("leaf", "leaf-list"):
            out.append((steps + (k.name,), r))
        elif k.kind == "container":
            out.append((steps + (k.name,), r))
            out += live(k, r, steps + (k.name,))
        elif k.keys:
            for t in list(r):
                e = r[t]
                st = steps + ((k.name, tuple((n, str(getattr(e, k.find(n).py))) for n in k.keys)),)
                out.append((st, e))
                out += live(k, e, st)
    return out


def literal(v):
    if "'" not in v:
        return "'%s'" % v
    if '"' not in v:
        return '"%s"' % v
    return None


def text(steps):
    out = ""
    for s in steps:
        if isinstance(s, tuple):
            lits = [(n, literal(v)) for n, v in s[1]]
            if any(q is None for _, q in lits):
                return None
            out += "/%s[%s]" % (s[0], " and ".join("%s=%s" % x for x in lits))
        else:
            out += "/" + s
    return out


class Registry(Spec):
    def extra(self, real, model, op):
        ph = real.helper
        nodes = live(self.schema.root, real.root, ())
        want = {id(o): st for st, o in nodes}
        for st, o in nodes:
            p = text(st)
            if p is not None:
                try:
                    got = ph.get(p)
                except Exception as e:
                    return [("lookup", "lookup of %s raised %r" % (p, e))]
                if len(got) != 1 or got[0] is not o:
                    return [("lookup", "lookup of live node %s gives %d objects%s" % (p, len(got), ", not the live one" if len(got) == 1 else ""))]
            own = ph.get(o._path())
            if len(own) != 1 or own[0] is not o:
                return [("own path", "lookup of the node's own path %r gives %d objects%s" % (o._path(), len(own), ", not the live one" if len(own) == 1 else ""))]
        for x in ph.get("//*"):
            if id(x) not in want and type(x).__name__ != "FakeRoot":
                if x is real.root:
                    continue
                return [("stale", "the registry still finds an object that is not in the tree: %s" % "/".join(x._path()))]
        return []

    def digest(self, real, model):
        from mc import core

        ph = real.helper
        return core.h((super().digest(real, model), sorted("/".join(x._path()) for x in ph.get("//*") if hasattr(x, "_path"))))


def keyed():
    """keys of several types, several keys, nested lists, awkward key text"""
    return Schema(
        "keyed",
        Mod(
            "m",
            C(
                "c",
                Lst("s", "k", Leaf("k", Str()), Leaf("v", Int("uint8"))),
                Lst("i", "k", Leaf("k", Int("uint8")), Lst("n", "a-b x", Leaf("a-b", Enum("on", "off")), Leaf("x", Dec(1)), LL("z", Str("1")))),
            ),
        ),
        xpath=True,
    )


KEYED_OPS = (
    [("add", ("c", "s"), {"k": k}) for k in ("a", "a b", "it's", 'q"q', "]", "x/y", "[1]", "a||b", "k='1'", "current()", "\u00e9", "''\"")]
    + [("delete", ("c", "s"), k) for k in ("a", "a b", "it's", "]", "x/y")]
    + [("set", ("c", ("s", "a"), "v"), 1), ("set", ("c", ("s", "it's"), "v"), 1), ("unset", ("c", "s")), ("unset", ("c",))]
    + [("add", ("c", "i"), {"k": 1}), ("add", ("c", "i"), {"k": 2}), ("delete", ("c", "i"), "1"), ("unset", ("c", "i"))]
    + [("add", ("c", ("i", "1"), "n"), {"a-b": "on", "x": "1.5"}), ("add", ("c", ("i", "1"), "n"), {"a-b": "off", "x": "1.5"}), ("delete", ("c", ("i", "1"), "n"), "on 1.5")]
    + [("ll", ("c", ("i", "1"), ("n", "on 1.5"), "z"), "append", "a"), ("unset", ("c", ("i", "1"), "n"))]
)


def run(ctx):
    depth = 3 if ctx.quick else 5
    specs = []
    for f in (schemas.basic, schemas.choices, schemas.nested):
        s = f(True)
        ops = ops_for(s, good=2, bad=1, badkeys=1, llgood=1, lls=("append", "assign", "pop"), keyset=False)
        specs.append(Registry(s.label, s, ops, depth if s.label != "basic" else depth, masks={"changed": False, "present": False}))
    specs.append(Registry("keyed", keyed(), KEYED_OPS, depth, masks={"changed": False, "present": False}))
    run_specs(ctx, specs)
