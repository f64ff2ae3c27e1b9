"""S10: nothing but schema children can be assigned on (or read from) a container or list entry.

For every container and list entry of the structure schemas, in the initial state and after every single operation: every
near-miss of every name of the schema, and every short name over a small alphabet, is assigned, read and deleted."""
import itertools
import re

from mc import core, schemas, tree
from mc.alphabet import ops_for
from mc.checks import s08
from mc.explore import Spec, built
from mc.tree import C, Ch, LL, Leaf, Lst, Mod, Schema
from mc.ytypes import Int, Str

one = lambda n: Leaf(n, Str("1"))


def names(xpath=False):
    """identifiers that need a Python spelling, at every level, and containers without children"""
    kids = lambda: [one("class"), one("x-y"), one("x.z"), one("get2"), LL("list", Str("1")), C("import", one("as"), C("void", presence=True)), Lst("for", "in", one("in"), one("is-not"))]
    return Schema("names", Mod("m", C("c", *kids(), C("pempty", presence=True), Ch("pick", one("p1"), one("p-2"))), C("void", presence=True)), xpath=xpath)


SCHEMAS = (names, schemas.basic, schemas.choices, schemas.nested, schemas.modules, schemas.keyless, s08.only)


def near(node, schema):
    """names that are not attributes, most of which are almost one"""
    out = set()
    allnames = set()

    def walk(n):
        for k in n.kids:
            allnames.add(k.name)
            for a, b in k.choices:
                allnames.update((a, b))
            if k.kind in ("container", "list"):
                walk(k)

    walk(schema.root)
    for m in schema.mods:
        allnames.update((m.name, m.ns))
    for n in sorted(allnames):
        py = tree.safe(n)
        vs = [n, py, py + "_", py.rstrip("_"), "_" + py, "__" + py, "__" + py + "__", py.upper(), py.capitalize(), py[:-1] or "q", py + "s", " " + py, py + " ", "", "é" + py]
        vs += ["%s:%s" % (m.name, n) for m in schema.mods] + ["%s_%s" % (m.name, py) for m in schema.mods]
        vs += ["set_" + py, "_set_" + py + "_", "get_" + py, "unset_" + py, n.replace("-", "").replace(".", "")]
        out.update(vs)
    out.update("".join(c) for k in (1, 2) for c in itertools.product("axkl_-1", repeat=k))
    return sorted(out - {tree.safe(k.name) for k in node.kids})


def nodes(sch, o, path="/"):
    """every real container and list entry"""
    yield sch, o, path
    for k in sch.kids:
        if k.kind == "container":
            yield from nodes(k, getattr(o, k.py), path + k.name + "/")
        elif k.kind == "list":
            for key in getattr(o, k.py):
                yield from nodes(k, getattr(o, k.py)[key], "%s%s[%s]/" % (path, k.name, key))


_SPECS = []


def _probe(i):
    spec, hist = _SPECS[i]
    res = core.new_result()
    real, model = spec.start()
    for op in hist:
        try:
            spec.apply(real, model, op, check=False)  # operations without meaning in this state are skipped
        except tree.ERRORS:
            pass
    text = lambda: re.sub(r"0x[0-9a-f]+", "", repr(real.snap()) + repr(real.view(False)))
    before = text()
    for sch, o, path in list(nodes(spec.schema.root, real.root)):
        kind = sch.kind
        for n in near(sch, spec.schema):
            api = hasattr(type(o), n)  # methods and inner state of the library itself
            if api:
                continue
            for what, f in (("assigned", lambda: setattr(o, n, "1")), ("assigned (object)", lambda: setattr(o, n, o)), ("read", lambda: getattr(o, n)), ("deleted", lambda: delattr(o, n))):
                res["transitions"] += 1
                try:
                    f()
                except tree.ERRORS:
                    continue
                res["viol"].append(
                    (
                        "%s: %s attribute %s of %s" % (spec.schema.label, what, n, path),
                        "the attribute %r of %s %s, which is not a node of the schema, could be %s" % (n, kind, path, what),
                        {"yang": spec.schema.texts(), "history": [tree.op_text(h) for h in hist]},
                    )
                )
        after = text()
        if after != before:
            res["viol"].append(("%s: refused access changes %s" % (spec.schema.label, path), "after refused accesses to %s the tree is\n%s\nbefore\n%s" % (path, after, before), {}))
            before = after
        kids = {tree.safe(k.name) for k in sch.kids}
        if set(dict(o.__iter__())) != kids or set(o.elements() or ()) != kids:
            res["viol"].append(("%s: children of %s" % (spec.schema.label, path), "elements() gives %s, the schema has %s" % (sorted(o.elements()), sorted(kids)), {}))
        core.bump(res, "%s %s" % (spec.schema.label, kind))
    res["states"] += 1
    res["traces"] += 1
    return res


def run(ctx):
    _SPECS.clear()
    for f in SCHEMAS:
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=1, bad=0, badkeys=0, keys=1, llgood=1, lls=("append",), keyset=False, unset=False, internal=True)
            spec = Spec(s.label + ("/xpath" if x else ""), s, ops, 1)
            try:
                built(s)
            except Exception as e:
                ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
                continue
            adds = [op for op in ops if op[0] == "add"]
            _SPECS.append((spec, []))
            _SPECS.append((spec, adds))
            _SPECS.append((spec, ops))
            _SPECS.extend((spec, [op]) for op in ops)
            if not ctx.quick:
                _SPECS.extend((spec, [a, b]) for a in ops for b in ops)
    core.pmerge(ctx, _probe, range(len(_SPECS)))
    ctx.bound("every near-miss of every schema name, and every name of up to 2 characters over 7, on every container and entry of %d schemas" % len(SCHEMAS))
