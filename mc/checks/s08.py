"""S08: presence containers are present exactly when made so, in the tree and through every serialisation."""
from mc import schemas, serial, tree
from mc.alphabet import ops_for
from mc.explore import Spec, built, run_specs
from mc.tree import C, Case, Ch, LL, Leaf, Lst, Mod, Schema
from mc.ytypes import Str


class Presence(Spec):
    masks = {"changed": False}
    views = True

    def extra(self, real, model, op):
        out = []
        for f in serial.FORMATS.values():
            out += serial.round_trip(f, self.schema, built(self.schema), real, model)
        return out

    def model_op(self, model, op):
        """absent: presence taken back from a container without content"""
        n = model.node(op[1])
        if any(k.is_set() for k in n.kids.values()):
            raise tree.Disabled()
        n.present = n.touched = False

    def real_op(self, real, op):
        real.node(op[1])._set_present(False)


one = lambda n: Leaf(n, Str("1"))


def only(xpath=False):
    """presence containers that hold nothing but each other, at every depth and between modules"""
    p = lambda n, *k: C(n, *k, presence=True)
    return Schema(
        "only",
        Mod("m", p("a", C("n", p("b", p("c")))), C("o", Lst("l", "k", one("k"), C("x", p("e"))), LL("z", Str("1")))),
        Mod("w", imports=("m",), augments=[("/m:a", [p("aw", one("v"))]), ("/m:o/m:l", [p("lw")])]),
        xpath=xpath,
    )


def run(ctx):
    specs = []
    for f in (schemas.presences, only):
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=1, bad=1, badkeys=0, keys=1, llgood=1, lls=("append", "pop"), keyset=False)
            ops += [("absent",) + o[1:] for o in ops if o[0] == "presence"]
            specs.append(Presence(s.label + ("/xpath" if x else ""), s, ops, (3 if not x else 2) if ctx.quick else 4))
    run_specs(ctx, specs)
