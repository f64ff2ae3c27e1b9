"""R10: the metadata of RFC 7951 documents end up at exactly the nodes they annotate, and change nothing else.

Every annotation, and every pair of them, in documents with all nodes of a schema, before or after the node, with and without the name of
the module; loaded into new bindings, into ones that have data, and with the overwriting loader."""
import copy
import itertools
import json

from mc import core, schemas, tree
from mc.checks.x04 import contents, unions
from mc.explore import built
from mc.tree import safe


def sites(sch, doc, steps=(), real=()):
    """(steps of the object in the document, annotated member or None for itself, steps to the node in the bindings)"""
    out = []
    if real:
        out.append((steps, None, real))
    for k in sch.kids:
        if k.name not in doc:
            continue
        v = doc[k.name]
        if k.kind == "list":
            for i, e in enumerate(v):
                out += sites(k, e, steps + (k.name, i), real + (k.py, i))
        else:
            out.append((steps, k.name, real + (k.py,)))
            if k.kind == "container":
                out += sites(k, v, steps + (k.name,), real + (k.py,))
    return out


def at(root, steps):
    o = root
    for s in steps:
        o = list(o.values())[s] if isinstance(s, int) else getattr(o, s)
    return o


def annotate(doc, site, n, before, value):
    """the document with an annotation; before its node, or after it"""
    doc = copy.deepcopy(doc)
    target = doc
    for s in site[0]:
        target = target[s]
    name = "@" if site[1] is None else "@" + site[1]
    items = [(k, v) for k, v in target.items() if k != name]
    at = ([k for k, _ in items] + [None]).index(site[1]) if site[1] is not None else 0 if before else len(items)
    new = (name, dict(target.get(name, {}), **value))
    items.insert(at if before else at + 1, new)
    target.clear()
    target.update(items)
    return doc


def qualified(sch, doc):
    """the document with the name of the module before all names of members and their annotations"""
    out = {}
    for k, v in doc.items():
        n = k.lstrip("@")
        kid = next((x for x in sch.kids if x.name == n), None)
        if kid is None:
            out[k] = v
            continue
        if not k.startswith("@") and kid.kind == "container":
            v = qualified(kid, v)
        elif not k.startswith("@") and kid.kind == "list":
            v = [qualified(kid, e) for e in v]
        # within a list keys are found by their plain names
        plain = sch.kind == "list" and n in sch.keys
        out[("@" if k.startswith("@") else "") + (n if plain else "%s:%s" % (kid.mod.name, n))] = v
    return out


VALUES = [{"ann:a": 1}, {"inactive": True, "b": {"c": [1, None]}, "x": "t"}, {}]
WAYS = ("new", "again", "over", "helper")


def load(s, mod, doc, how, plain):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.xpathhelper import YANGPathHelper

    cls = getattr(mod, safe(s.main.name))
    if how == "new":
        return pybindJSON.loads_ietf(json.dumps(doc), mod, s.main.name)
    if how == "helper":
        return pybindJSON.loads_ietf(json.dumps(doc), mod, s.main.name, path_helper=YANGPathHelper())
    root = cls()
    pybindJSON.pybindJSONDecoder.load_ietf_json(plain, None, None, obj=root)
    pybindJSON.pybindJSONDecoder.load_ietf_json(doc, None, None, obj=root, overwrite=how == "over")
    return root


def explore(item):
    label, n, combos, variants = item
    res = core.new_result()
    s = next(x for x in shapes() if x.label == label)
    mod = built(s)
    doc = contents(s.root, n)
    all_sites = sites(s.root, doc)
    want_tree = {}
    for combo in combos:
        for before, value, qual, how in variants:
            if label.startswith("keyless") and how in ("again", "over"):
                continue  # entries without a key are added once more
            d = doc
            for i, c in enumerate(combo):
                v = dict(VALUES[value], **({"n%d" % i: i} if value != 2 else {}))
                d = annotate(d, all_sites[c], i, before, v)
            want = {}
            for i, c in enumerate(combo):
                v = dict(VALUES[value], **({"n%d" % i: i} if value != 2 else {}))
                want.setdefault(all_sites[c][2], {}).update(v)
            if qual:
                d = qualified(s.root, d)
            key = (how, qual)
            bad = None
            try:
                root = load(s, mod, d, how, doc)
                for site in all_sites:
                    got = at(root, site[2])._metadata
                    if got != want.get(site[2], {}):
                        bad = ("metadata of %s" % "/".join(str(x) for x in site[2]), "it has the metadata %r, expected %r" % (got, want.get(site[2], {})))
                        break
                if bad is None:
                    if key not in want_tree:
                        want_tree[key] = tree.rsnap(s.root, load(s, mod, qualified(s.root, doc) if qual else doc, how, doc))
                    dd = tree.diff(tree.rsnap(s.root, root), want_tree[key])
                    bad = ("data", "not as without metadata: %s" % dd) if dd else None
            except Exception as e:
                bad = ("loading", "raised %r" % e)
            res["states"] += 1
            res["traces"] += 1
            res["transitions"] += len(combo)
            if bad:
                res["viol"].append(("%s: %s, %s: %s" % (label, how, "qualified" if qual else "plain", bad[0]), bad[1], {"document": d, "yang": s.texts()}))
    core.bump(res, label, res["traces"])
    return res


def shapes():
    return [f() for f in (schemas.basic, schemas.choices, schemas.nested, schemas.presences, schemas.bitsy, schemas.typed, schemas.modules, schemas.orders, schemas.keyless, unions)] + [helped()]


def helped():
    s = schemas.basic(True)
    s.label = "basic with helper"
    return s


def run(ctx):
    items = []
    total = 0
    for s in shapes():
        built(s)
        ways = [w for w in WAYS if (w == "helper") <= s.xpath]
        for n in (1, 2):
            k = len(sites(s.root, contents(s.root, n)))
            single = [(i,) for i in range(k)] + [()] + [tuple(range(k))]
            every = list(itertools.product((True, False), range(len(VALUES)), (True, False), ways))
            pairs = [c for c in itertools.product(range(k), repeat=2) if n == 1 or not ctx.quick]
            few = every if not ctx.quick else [(True, 0, False, ways[0]), (False, 0, True, ways[1])]
            for i in range(0, len(single), 6):
                items.append((s.label, n, single[i : i + 6], every))
            for i in range(0, len(pairs), 20):
                items.append((s.label, n, pairs[i : i + 20], few))
            if not ctx.quick:
                triples = list(itertools.combinations(range(k), 3))
                for i in range(0, len(triples), 100):
                    items.append((s.label, n, triples[i : i + 100], [(True, 0, False, "new"), (False, 0, True, "again")]))
            total += len(single) + len(pairs)
    core.pmerge(ctx, explore, items)
    ctx.bound("%d schemas, documents with all their nodes and 1 or 2 entries of each list; %d choices of up to 2%s annotated nodes (quick: of 2 with one entry in each list, in two of the ways), and all; before or after the node; 3 contents; plain and qualified names; %s" % (len(shapes()), total, "" if ctx.quick else " (and of 3)", ", ".join(WAYS)))
    ctx.assumptions = ["annotations of the root and of list nodes as such, which the loader does not define, are left out"]
