"""S01: an operation that raises leaves everything observable as it was."""
from mc import schemas, tree
from mc.alphabet import ops_for, split
from mc.explore import REFUSED, Spec, run_specs
from mc.tree import Disabled, Refuse


class Refusals(Spec):
    """good operations build states; every bad one must leave no trace"""

    probes = ()
    disabled_is_clean = False

    def model_op(self, model, op):
        if op[0] == "bad":
            kind, path = op[1], op[2]
            n = model.node(path) if path else model.root
            if kind == "getentry" and op[3] in n.ents:
                raise Disabled()
            raise Refuse(kind)
        raise ValueError(op)

    def real_op(self, real, op):
        kind, path, args = op[1], op[2], op[3:]
        if path and kind in ("assign", "delattr"):
            o, s = real.cont(path)
            if kind == "assign":
                setattr(o, s.find(path[-1]).py, args[0])
            else:
                delattr(o, s.find(path[-1]).py)
            return
        o = real.node(path) if path else real.root
        if kind == "setattr":
            setattr(o, args[0], 1)
        elif kind == "getattr":
            getattr(o, args[0])
        elif kind == "getentry":
            o[args[0]]
        elif kind == "call":
            getattr(o, args[0])(*args[1], **args[2])
        elif kind == "setitem":
            o[args[0]] = args[1]

    def apply(self, real, model, op, check=True):
        """what is refused is the concern of other properties: a lenient acceptance leaves this exploration"""
        out = super().apply(real, model, op, check)
        if out and out != REFUSED and out[0][0] == "outcome" and "operation ok, expected refused" in out[0][1]:
            return None
        return out

    def observe(self, real):
        out = [real.snap(), repr(real.view(True)), repr(real.view(False))]
        if real.helper is not None:
            for p in self.probes:
                try:
                    found = [id(o) for o in real.helper.get(p)]
                except Exception as e:
                    found = type(e).__name__
                out.append((p, found))
        return tuple(out)

    def check(self, real, model, op, want):
        if want == "refused":
            return []
        d = tree.diff(tree.mask(real.snap(), changed=False, present=False), tree.mask(model.snap(), changed=False, present=False))
        return [("tree", d)] if d else []


def bad_ops(schema):
    """API misuse of every node"""
    out = []

    def walk(node, path):
        out.append(("bad", "setattr", path, "no_such"))
        out.append(("bad", "getattr", path, "no_such"))
        for k in node.kids:
            p = path + (k.name,)
            out.append(("bad", "delattr", p))
            if k.kind == "leaf":
                out.append(("bad", "assign", p, {"a": 1}))
                if split(k.ty)[2]:
                    out.append(("bad", "assign", p, split(k.ty)[2][-1]))
            elif k.kind == "leaf-list":
                out.append(("bad", "assign", p, {"a": 1}))
                out.append(("bad", "call", p, "index", ("not there",), {}))
            elif k.kind == "container":
                for v in (5, None, "x", {}, []):
                    out.append(("bad", "assign", p, v))
                walk(k, p)
            else:
                for v in (5, None, "x", {}, []):
                    out.append(("bad", "assign", p, v))
                out.append(("bad", "getentry", p, "no such"))
                out.append(("bad", "setitem", p, "zz", 7))
                out.append(("bad", "call", p, "delete", ("no such",), {}))
                if k.keys:
                    out.append(("bad", "call", p, "add", (), {}))
                    out.append(("bad", "call", p, "append", (object(),), {}))
                    out.append(("bad", "call", p, "add", (), {"zz": 1}))
                    out.append(("bad", "call", p, "add", ("x",), {tree.safe(k.keys[0]): "x"}))
    walk(schema.root, ())
    return out


def run(ctx):
    ctx.assumptions.append("refused = the operation raises ValueError, KeyError, AttributeError, TypeError or IndexError")
    specs = []
    depth = 3 if ctx.quick else 4
    for f in (schemas.basic, schemas.choices, schemas.nested, schemas.typed, schemas.presences, schemas.bitsy):
        for x in (False, True):
            s = f(x)
            good = ops_for(s, good=1, bad=0, badkeys=0, llgood=1, lls=("append",), keyset=False, keys=1)
            bad = ops_for(s, good=0, bad=3, keys=1, badkeys=2, llgood=1, lls=("append", "assign", "extend", "insert", "setitem", "pop", "remove"), unset=False, presence=False)
            ops = good + [o for o in bad if o not in good] + bad_ops(s)
            sp = Refusals(s.label + ("/xpath" if x else ""), s, ops, depth)
            sp.probes = probe_paths(sp, good)
            specs.append(sp)
    run_specs(ctx, specs)


def probe_paths(sp, good):
    """every path that can exist after a good operation"""
    out = set()
    for op in good:
        m = tree.Model(sp.schema)
        try:
            getattr(m, op[0])(*op[1:])
        except (Refuse, Disabled):
            continue
        out |= {p for p, _ in tree.live_paths(sp.schema.root, m.root)}
    return sorted(out)
