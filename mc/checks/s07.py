"""S07: after any history at most one case of each choice is populated, and only other cases of the same choice are unset."""
from mc import schemas, tree
from mc.alphabet import ops_for
from mc.explore import Spec, run_specs
from mc.tree import C, Case, Ch, LL, Leaf, Lst, Mod, Schema
from mc.ytypes import Bits, Int, Str


class Choices(Spec):
    masks = {"changed": False, "present": False}

    def extra(self, real, model, op):
        """the invariant itself, on the real tree"""
        return self.cases(self.schema.root, real.root, "")

    def cases(self, sch, o, path):
        chosen = {}
        out = []
        for k in sch.kids:
            r = getattr(o, k.py)
            if k.kind == "container":
                out += self.cases(k, r, path + "/" + k.name)
                there = bool(r.get(filter=True)) or bool(k.presence and r._present())
            elif k.kind == "list":
                there = len(r) > 0
                for t in list(r):
                    out += self.cases(k, r[t], "%s/%s[%s]" % (path, k.name, t))
            elif k.kind == "leaf-list":
                there = len(r) > 0
            else:
                there = r._changed()
            if there:
                for i, (c, s) in enumerate(k.choices):
                    key = k.choices[:i] + (c,)
                    if chosen.setdefault(key, s) != s:
                        out.append(("two cases", "%s: choice %s has nodes of the cases %s and %s" % (path or "/", c, chosen[key], s)))
        return out


one = lambda n: Leaf(n, Str("1"))


def top(xpath=False):
    """choices at the top of a module, a case without nodes, a case that is only a presence container"""
    return Schema(
        "top",
        Mod(
            "m",
            Ch("ch", one("a"), Case("none"), C("p", one("x"), presence=True), Lst("l", "k", one("k"), Ch("in", one("i"), LL("j", Str("1")))), Case("two", one("t1"), one("t2"))),
            one("free"),
        ),
        xpath=xpath,
    )


def deep(xpath=False):
    """choices four levels deep within each other, siblings at every level"""
    c4 = Ch("c4", one("d1"), one("d2"))
    c3 = Ch("c3", Case("a", one("e"), c4), one("f"))
    c2 = Ch("c2", Case("a", c3, one("g")), Case("b", LL("h", Str("1"))))
    return Schema("deep", Mod("m", C("c", Ch("c1", Case("a", c2), Case("b", C("i", Leaf("bits", Bits("r", "w")))), one("k")))), xpath=xpath)


def two(xpath=False):
    """several choices with cases of the same names side by side, and the same again one level down"""
    return Schema(
        "two",
        Mod(
            "m",
            C(
                "c",
                Ch("x", Case("a", one("xa"), C("n", Ch("x2", Case("a", one("na")), Case("b", one("nb"))), one("free"))), Case("b", one("xb"))),
                Ch("y", Case("a", one("ya"), one("ya2")), Case("b", Leaf("yb", Int("uint8", "1..9"), default="3"))),
            ),
        ),
        xpath=xpath,
    )


def augmented(xpath=False):
    """a case that another module adds, and nodes added to an existing case"""
    return Schema(
        "augmented",
        Mod("m", C("c", Ch("ch", Case("a", one("a1")), Case("b", C("b1", one("x"))), Case("d", Ch("in", one("i1"), one("i2")))), one("free"))),
        Mod(
            "n",
            imports=("m",),
            augments=[
                ("/m:c/m:ch", [Case("z", one("z1"), LL("z2", Str("1"))), C("w", one("wx"), presence=True)]),
                ("/m:c/m:ch/m:a", [one("a2")]),
                ("/m:c/m:ch/m:d/m:in", [Case("i3", one("i3"))]),
                ("/m:c/m:ch/m:b/m:b1", [Ch("ch", one("q1"), one("q2"))]),
            ],
        ),
        xpath=xpath,
    )


def run(ctx):
    specs = []
    for f in (schemas.choices, schemas.nested, schemas.bitsy, top, deep, two, augmented):
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=1, bad=1, badkeys=1, keys=2, llgood=1, lls=("append", "assign", "pop"), keyset=False, inplace=f in (deep, schemas.bitsy))
            specs.append(Choices(s.label + ("/xpath" if x else ""), s, ops, 4 if ctx.quick else 6))
    run_specs(ctx, specs)
