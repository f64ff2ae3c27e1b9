"""G02: every way to generate the bindings of a module - in one file or as a tree of packages, with each set of optional features - gives
the same tree: the constructs of G01 compared node by node, and histories of operations driven through all of them in lockstep."""
import itertools

from mc import core, genbind, schemas, tree
from mc.alphabet import ops_for
from mc.checks import g01
from mc.checks.g01 import E
from mc.checks.s02 import Pair
from mc.explore import Spec, run_specs
from mc.tree import ERRORS, Disabled, Model, Real, Refuse, safe

FEATURES = ("--use-xpathhelper", "--use-extmethods", "--build-rpcs", "--build-notifications")
SETS = [tuple(f for f, on in zip(FEATURES, bits) if on) for bits in itertools.product((False, True), repeat=len(FEATURES))]
WAYS = [(split, s) for split in (False, True) for s in SETS]


# the ways that are driven in lockstep: operations are generated along with extmethods
LOCKSTEP = [(split, s) for split in (False, True) for s in SETS if len({f in s for f in FEATURES[1:]}) == 1]


def label(way):
    return "%s%s" % ("packages" if way[0] else "one file", "".join(" " + f[2:] for f in way[1]))


def make(texts, way, main=None):
    return (genbind.build_split if way[0] else genbind.build)(texts, main=main, flags=("--presence",) + way[1])


# --- every construct -----------------------------------------------------------------------------
OPERATIONS = "rpc do-it { input { leaf a { type string; } container c { leaf b { type string; } } } output { list l { leaf c { type string; } } } }\nnotification note { leaf a { type string; } container c { leaf b { type string; } } }\n"


# the names that the generated code uses for itself
WORDS = """AttributeError Decimal PybindBase ReferenceType RestrictedClassType RestrictedPrecisionDecimalType TypeError TypedListType ValueError YANGBinary
YANGBitsType YANGBool YANGDynClass YANGListType OrderedDict all_attr args attrgetter bool dict e extmethods getattr hasattr helper isinstance kwargs len load
long nobj parent self setattr setmethod t v xpathhelper operator decimal builtins collections pyangbind lib str int list property object type super""".split()
WORDS = tuple(WORDS)


def repeats():
    """label, modules, expected nodes of m: names that repeat those of their parents, and of the module"""

    def leaf(n):
        return E("leaf", n, "m", True, type="string")

    def lst(n, kids):
        return E("list", n, "m", True, [E("leaf", "k", "m", True, type="string", key=True)] + kids, keys="k")


    def nest(path, kinds):
        t, x = "leaf v { type string; }", [leaf("v")]
        for n, k in reversed(list(zip(path, kinds))):
            if k == "c":
                t, x = "container %s { %s }" % (n, t), [E("container", n, "m", True, x)]
            else:
                t, x = "list %s { key k; leaf k { type string; } %s }" % (n, t), [lst(n, x)]
        return t, x

    def choice(n):
        t, (x,) = nest((n,), "c")
        o = leaf("o")
        x.cases, o.cases = (("ch", n),), (("ch", "other"),)
        return "choice ch { %s case other { leaf o { type string; } } }" % t, [x, o]

    names = ("m", "x", "class", "x-y", "m-rpc")
    for odd in (False, True):
        ns = [n.replace("-", "_") if odd else n for n in names]
        for rest in itertools.product(sorted(set(names) | set(ns)), repeat=2):
            for kinds in "ccc", "lcl":
                both = [nest((n,) + rest, kinds) for n in ns]
                yield "paths */%s of %s%s" % ("/".join(rest), kinds, " from others" if odd else ""), "\n".join(t for t, _ in both), [y for _, x in both for y in x]
    for n in WORDS:
        parts = [nest((n, n, n), "ccc"), nest(("y", n), "cl"), nest(("z", n), "lc")]
        t, x = choice(n)
        parts.append(("container w { %s }" % t, [E("container", "w", "m", True, x)]))
        parts.append(("container twice { %s }" % nest((n, "u"), "cc")[0], [E("container", "twice", "m", True, nest((n, "u"), "cc")[1])]))
        yield "word %s" % n, "\n".join(t for t, _ in parts), [y for _, x in parts for y in x]


def explore_names(item):
    res = core.new_result()
    for lab, body, nodes in item:
        t = {"m": "module m { yang-version 1.1; namespace 'urn:m'; prefix m;\n%s\n%s}" % (body, OPERATIONS)}
        for way in (False, ()), (True, ()), (True, FEATURES):
            try:
                root = make(t, way).m()
                root.get()
            except Exception as e:
                res["viol"].append(("names: unusable as %s: %s" % (label(way), lab), "%s: %s" % (lab, str(e)[-1500:]), {"yang": t}))
                continue

            def bad(kind, where, text):
                res["viol"].append(("names: %s: %s: %s" % (kind, lab, label(way)), "%s: %s" % (where, text), {"yang": t}))

            g01.compare(nodes, root, "m", res, bad)
            core.bump(res, label(way))
            res["traces"] += 1
    return res


def explore_several(item):
    """several modules in one call, whose top-level nodes are named alike, and as the modules"""
    res = core.new_result()
    order, names = item

    def nodes(mod):
        return [E("container", n, mod, True, [E("leaf", "of-" + mod, mod, True, type="string"), E("container", n, mod, True, [E("leaf", "in-" + mod, mod, True, type="string")])]) for n in names]

    t = {}
    for mod in order:
        body = "".join("container %s { leaf of-%s { type string; } container %s { leaf in-%s { type string; } } }\n" % (n, mod, n, mod) for n in names)
        t[mod] = "module %s { yang-version 1.1; namespace 'urn:%s'; prefix %s;\n%s%s}" % (mod, mod, mod, body, OPERATIONS)
    for way in LOCKSTEP:
        try:
            bindings = make(t, way, list(order))
            for mod in order:
                getattr(bindings, mod)().get()
        except Exception as e:
            res["viol"].append(("several: unusable as %s: modules %s, nodes %s" % (label(way), order, names), str(e)[-1500:], {"yang": t}))
            continue

        def bad(kind, where, text):
            res["viol"].append(("several: %s: modules %s, nodes %s: %s" % (kind, order, names, label(way)), "%s: %s" % (where, text), {"yang": t}))

        for mod in order:
            g01.compare(nodes(mod), getattr(bindings, mod)(), mod, res, bad)
        res["traces"] += 1
    return res


def explore(item):
    items, pfx, naming, ways = item
    res = core.new_result()
    t, nodes = g01.texts(items, pfx, naming)
    if not nodes:
        return res
    t = dict(t, m=t["m"].rstrip().rstrip("}") + OPERATIONS + "}\n")
    for way in ways:
        try:
            mod = make(t, way, ["m", "b"])
            root = mod.m()
        except Exception as e:
            res["viol"].append(("bindings unusable: %s" % label(way), "%s: %s" % (nodes[0].chain, str(e)[-1500:]), {"yang": t}))
            continue
        seen = set()

        def bad(kind, where, text):
            top = where.split("/")[1] if "/" in where else ""
            chain = next((x.chain for x in nodes if x.name == top.replace("[]", "")), "")
            key = "%s: %s: %s" % (kind, chain, label(way))
            if key not in seen:
                seen.add(key)
                res["viol"].append((key, "%s: %s (%s prefixes, %s names)" % (where, text, pfx, naming), {"yang": t}))

        g01.compare(nodes, root, "m", res, bad)
        res["traces"] += len(items)
        core.bump(res, label(way))
    return res


# --- histories -----------------------------------------------------------------------------------
_MODS = {}


class All(Spec):
    """the bindings of every way, next to each other"""

    def mods(self):
        if self.label not in _MODS:
            t = self.schema.texts()
            t[self.schema.main.name] = t[self.schema.main.name].rstrip().rstrip("}") + OPERATIONS + "}\n"
            _MODS[self.label] = [make(t, w, list(t)) for w in LOCKSTEP]
        return _MODS[self.label]

    masks = {}

    def start(self):
        from pyangbind.lib.xpathhelper import YANGPathHelper

        rs = []
        for way, mod in zip(LOCKSTEP, self.mods()):
            rs.append(Real(self.schema, mod, YANGPathHelper() if FEATURES[0] in way[1] else None))
        return Pair(rs), Model(self.schema)

    def apply(self, real, model, op, check=True):
        name, args = op[0], op[1:]
        try:
            getattr(model, name)(*args)
            want = "ok"
        except Refuse:
            want = "refused"
        except Disabled:
            return None
        out = []
        for way, r in zip(LOCKSTEP, real.members):
            try:
                getattr(r, name)(*args)
                got = "ok"
            except ERRORS as e:
                got, err = "refused", e
            except Exception as e:
                got, err = "crashed", e
            if got != want:
                out.append(("outcome: %s" % label(way), "operation %s, expected %s%s" % (got, want, "" if got == "ok" else " (%s: %s)" % (type(err).__name__, str(err)[:300]))))
        if not check:
            return []
        return out or self.check(real, model, op, want)

    def check(self, real, model, op, want):
        m = tree.mask(model.snap(), **self.masks)
        views = [model.view(None, f) for f in (True, False)]
        for way, r in zip(LOCKSTEP, real.members):
            d = tree.diff(tree.mask(r.snap(), **self.masks), m)
            if d:
                return [("tree: %s" % label(way), d)]
            for f, mv in zip((True, False), views):
                if r.view(f) != mv:
                    return [("view: %s" % label(way), "get(filter=%s) gives %s, expected %s" % (f, tree.short(r.view(f)), tree.short(mv)))]
        return []


def run(ctx):
    chains = [c for n in (1, 2) for c in itertools.product(g01.WRAPPERS, repeat=n)]
    items = []
    for where in "m", "ms":
        w = [(k, (c, g01.full, where)) for k, c in enumerate(chains)]
        alone = [[x] for x in w if set(x[1][0]) <= g01.TRANSPARENT]
        w = [x for x in w if not set(x[1][0]) <= g01.TRANSPARENT]
        for pfx, naming in ("names", "distinct"), ("others", "same"):
            main = (True, FEATURES) if naming == "distinct" else (True, ())
            for group in alone:
                items.append((group, pfx, naming, [main]))
            for k in range(0, len(w), 40):
                items.append((w[k : k + 40], pfx, naming, [main]))
    # one of each construct, in every way
    short = [(k, ((a,), g01.full, "m")) for k, a in enumerate(g01.WRAPPERS) if a not in g01.TRANSPARENT]
    for way in LOCKSTEP:
        for naming in "distinct", "same":
            items.append((short, "names", naming, [way]))
    core.pmerge(ctx, explore, items)
    rep = list(repeats())
    core.pmerge(ctx, explore_names, [rep[k : k + 12] for k in range(0, len(rep), 12)])
    several = [(o, ns) for n in (2, 3) for o in itertools.permutations("mab", n) for ns in (("c",), ("m",), ("a", "b"), ("m", "a", "b", "c"))]
    core.pmerge(ctx, explore_several, several)
    ctx.bound("%d orders of modules whose nodes at the top are named alike, and as the modules" % len(several))
    ctx.bound("%d arrangements of names that repeat those of parents, of the module and of generated packages" % len(rep))
    ctx.bound("%d chains of constructs as packages, each construct in all %d ways" % (len(chains), len(LOCKSTEP)))
    specs = []
    for f in (schemas.basic, schemas.choices, schemas.nested, schemas.presences, schemas.bitsy, schemas.typed, schemas.modules, schemas.orders, schemas.keyless):
        s = f()
        ops = ops_for(s, good=1, bad=0, badkeys=0, llgood=1, lls=("append", "pop"), keyset=False, keys=1) if ctx.quick else ops_for(s)
        specs.append(All(s.label, s, ops, 2, masks={"changed": False} if f is schemas.keyless else {}))
    run_specs(ctx, specs)
    ctx.bound("histories: %d ways in lockstep with one model" % len(LOCKSTEP))
