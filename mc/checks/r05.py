"""R05: loading merges a document into the existing data, or replaces what it mentions; loading it again changes nothing.

For every pair of a tree (reachable by a bounded history) and a document (of a tree reachable by a bounded history), each
format and each way of loading, judged by merging the two model trees."""
import copy
import json

from lxml import objectify

from mc import core, schemas, serial, tree
from mc.alphabet import ops_for
from mc.checks.s11 import clone, full, sources
from mc.checks.x01 import Registry
from mc.explore import Spec, built
from mc.tree import Disabled, Model, Real, Refuse, canon_tag, fresh, op_text

SHAPES = (schemas.basic, schemas.choices, schemas.nested, schemas.presences, schemas.typed, schemas.bitsy, schemas.modules, schemas.orders)


def merge(target, doc, fmt, overwrite, within=False):
    """the model of loading the tree `doc` over the tree `target`"""

    def walk(path, d, over):
        for name, k in d.kids.items():
            if not (k.is_set() or (k.sch.kind == "container" and shown(k))):
                continue
            p = path + (name,)
            sch = k.sch
            chain = target.chain(p)
            cont = chain[-1][0]
            if sch.kind == "leaf":
                if cont.sch.kind == "list" and name in cont.sch.keys:
                    continue
                target.touch(chain)
                cont.kids[name].v = k.v
            elif sch.kind == "leaf-list":
                target.touch(chain)
                have = cont.kids[name]
                if fmt == "xml":
                    tags = [canon_tag(sch.ty, v) for v in have.vals]
                    have.vals = have.vals + [v for v in k.vals if canon_tag(sch.ty, v) not in tags]
                else:
                    have.vals = list(k.vals)
            elif sch.kind == "list":
                if over:
                    cont.kids[name] = fresh(sch)
                for t, e in k.ents.items():
                    target.touch(chain)
                    lst = target.chain(p)[-1][0].kids[name]
                    if t not in lst.ents:
                        n = lst.ents[t] = tree.MC(sch)
                        for key in sch.keys:
                            n.kids[key].v = e.kids[key].v
                    walk(path + ((name, t),), e, over and fmt == "ietf")
            else:
                if over and fmt == "json":
                    new = fresh(sch)
                    new.present = cont.kids[name].present
                    cont.kids[name] = new
                if sch.presence:
                    target.touch(chain)
                    target.chain(p)[-1][0].kids[name].present = True
                walk(p, k, over and fmt == "ietf")

    if within:
        walk(("c",), doc.root.kids["c"], overwrite)
    else:
        walk((), doc.root, overwrite)


def shown(k):
    return bool(serial.doc_default(k.sch, k)) or (k.sch.presence and k.present)


def load(fmt, doc, root, overwrite, helper, within, mod):
    """`within`: the part of the document for /c, into what is there - found by its path when there is a registry"""
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindJSONDecoder

    kw = {"path_helper": helper} if helper is not None else {}
    if fmt == "xml":
        pybindIETFXMLDecoder.load_xml(doc, None, None, obj=root, **kw)
    else:
        f = pybindJSONDecoder.load_json if fmt == "json" else pybindJSONDecoder.load_ietf_json
        if within:
            doc = doc["c" if fmt == "json" else "m:c"]
            if helper is not None:
                name = [n for n in vars(mod) if isinstance(getattr(mod, n), type) and getattr(mod, n) in type(root.c).__mro__ and n.startswith("yc_c_")][0]
                o = f(doc, mod, name, path_helper=helper, overwrite=overwrite)
                assert o is root.c, "the existing container is not the one that is updated"
                return
            root = root.c
        f(doc, None, None, obj=root, overwrite=overwrite, **kw)


def documents(real):
    """{format: function that makes a new document}"""
    out = {}
    for name, f in serial.FORMATS.items():
        text = f.dump(real.root)
        if name == "xml":
            out[name] = lambda t=text: objectify.fromstring(t, parser=objectify.makeparser(remove_comments=True, remove_blank_text=True))
        else:
            out[name] = lambda t=text: json.loads(t)
    return out


_J = {}


def _explore(item):
    label, ti, dis = item
    spec, trees = _J[label]
    res = core.new_result()
    schema = spec.schema

    def build(h):
        r, m = spec.start()
        for op in h:
            spec.apply(r, m, op, check=False)
        return r, m

    for di in dis:
        docs = documents(build(trees[di])[0])
        for dfmt in docs:
            fmt = dfmt.split(" ")[0]
            for overwrite, within in ((False, False), (True, False), (False, True), (True, True)) if fmt != "xml" else ((False, False),):
                how = dfmt + (", overwrite" if overwrite else "") + (", within /c" if within else "")
                if within and not (shown(build_model(spec, trees[di]).root.kids["c"]) and (overwrite and fmt == "json" or spec.schema.xpath)):
                    continue

                def report(aspect, msg):
                    res["viol"].append(
                        (
                            "%s: %s: %s: %s" % (label, how, aspect, msg.split(":")[0]),
                            "%s\ntree: %s\ndocument: %s" % (msg, "; ".join(map(op_text, trees[ti])) or "(empty)", serial.FORMATS[fmt].dump(build(trees[di])[0].root)[:600].replace("\n", " ")),
                            {"yang": schema.texts(), "tree": [op_text(o) for o in trees[ti]], "document of": [op_text(o) for o in trees[di]], "format": how},
                        )
                    )

                real, model = build(trees[ti])
                doc = docs[dfmt]()
                merge(model, build_model(spec, trees[di]), fmt, overwrite, within)
                want = serial.content(model.snap())
                res["transitions"] += 2
                try:
                    load(fmt, doc, real.root, overwrite, real.helper, within, real.mod)
                except Exception as e:
                    report("load", "the document is refused: %s: %s" % (type(e).__name__, str(e)[:300]))
                    continue
                d = tree.diff(serial.content(real.snap()), want) or serial.findable(real.root, model.root)
                if d:
                    report("merge", d)
                    continue
                if fmt != "xml" and json.dumps(doc) != json.dumps(docs[dfmt]()):
                    report("document", "loading changed the document: %s" % json.dumps(doc)[:300])
                if real.helper is not None:
                    v = Registry.extra(spec, real, model, None)
                    if v:
                        report("registry", "%s: %s" % v[0])
                        continue
                before = real.snap()
                try:
                    load(fmt, doc, real.root, overwrite, real.helper, within, real.mod)
                except Exception as e:
                    report("again", "the document is refused the second time: %s: %s" % (type(e).__name__, str(e)[:300]))
                    continue
                d = tree.diff(real.snap(), before)
                if d:
                    report("again", "loading it again changes the tree: " + d)
        core.bump(res, label)
    res["traces"] += len(dis)
    res["states"] += 1
    return res


def build_model(spec, h):
    m = Model(spec.schema)
    for op in h:
        try:
            getattr(m, op[0])(*op[1:])
        except (Disabled, Refuse):
            pass
    return m


def run(ctx):
    _J.clear()
    items = []
    for f in SHAPES:
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=2, bad=0, badkeys=0, keys=2, llgood=2, lls=("append",), keyset=False, internal=True)
            spec = Spec(s.label + ("/xpath" if x else ""), s, ops, 0)
            try:
                built(s)
            except Exception as e:
                ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
                continue
            few = Spec("", s, ops if not ctx.quick else ops_for(s, good=1, bad=0, badkeys=0, keys=2, llgood=1, lls=("append",), keyset=False, internal=True), 0)
            trees = sources(spec, 1)
            trees += [h for h in sources(few, 2) if len(h) == 2]
            ones = [i for i, h in enumerate(trees) if len(h) < 2]
            trees += [full(spec), full(spec, True), full(spec)[::2], full(spec)[1::2]]
            fulls = list(range(len(trees) - 4, len(trees)))
            twos = [i for i, h in enumerate(trees) if len(h) == 2]
            _J[spec.label] = (spec, trees)
            small = ones + fulls
            for t in small:
                items.append((spec.label, t, small))
            if not x or not ctx.quick:
                for t in fulls if not ctx.quick else fulls[:2]:
                    items += [(spec.label, t, twos[i : i + 40]) for i in range(0, len(twos), 40)]
                for t in twos:
                    items.append((spec.label, t, fulls[:2] if ctx.quick else fulls + ones))
            ctx.bound("%s: trees of histories up to 2 operations and %d full trees: %d; loaded over each other (quick: pairs of one-operation and full ones, and each longer one against the full ones)" % (spec.label, len(fulls), len(trees)))
    core.pmerge(ctx, _explore, items)
