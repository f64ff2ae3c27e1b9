"""R06: documents with a wrong value, a wrong shape or an unknown name are refused, wherever that is in the document; with
unknown names explicitly skipped, everything else is loaded as if they were absent.

Every single mutation, at every position, of the documents of full trees of every schema, in every format."""
import copy
import json

from lxml import etree, objectify

from mc import core, schemas, serial, tree, values
from mc.alphabet import ops_for, split
from mc.checks.s11 import full
from mc.explore import Spec, built
from mc.tree import C, LL, Leaf, Lst, Mod, Schema, op_text, unwrap
from mc.ytypes import Empty, Int, Leafref, Str, Union


SHAPES = (schemas.basic, schemas.choices, schemas.nested, schemas.presences, schemas.typed, schemas.bitsy, schemas.modules, schemas.orders, schemas.keyless)


def kind_of(sch, name):
    n = name.split(":")[-1]
    for k in sch.kids:
        if k.name == n:
            return k
    return None


def entries(fmt, v):
    return list(v.items()) if isinstance(v, dict) else list(enumerate(v))


def jmutations(fmt, sch, d, path=()):
    """[(what, function that changes a copy of the document in place)]; a function gets the object at `path`"""
    out = []

    def put(key, v):
        return lambda o: o.__setitem__(key, v)

    for bad in near_names(sch, d):
        for v in (1, "a", None, {}, {"a": 1}, [], [1], [{"k": "a"}], [{}]):
            out.append((path, "unknown name %r = %s" % (bad, json.dumps(v)), put(bad, v), "unknown"))
    for key, v in d.items():
        if key == "__yang_order":
            continue
        k = kind_of(sch, key)
        if k.kind == "leaf":
            iskey = sch.kind == "list" and k.name in sch.keys
            for b in wrong(fmt, k.ty):
                if not (iskey and fmt == "json"):  # the key is the name of the member there
                    out.append((path, "%s = %s" % (key, json.dumps(b)), put(key, b), "value"))
            for b in ({}, {"a": 1}, [], [v], [[]], [1, 2], {"k": {"v": 1}}):
                if not (isinstance(unwrap(k.ty), Empty) and b in ([None], [v])) and not (iskey and fmt == "json"):
                    out.append((path, "%s = %s" % (key, json.dumps(b)), put(key, b), "shape"))
        elif k.kind == "leaf-list":
            for b in wrong(fmt, k.ty):
                for at in range(len(v)):
                    out.append((path, "%s[%d] = %s" % (key, at, json.dumps(b)), put(key, v[:at] + [b] + v[at + 1 :]), "value"))
                out.append((path, "%s + %s" % (key, json.dumps(b)), put(key, v + [b]), "value"))
            for b in ({"a": 1}, [{}], [{"a": 1}], [[]]):
                out.append((path, "%s = %s" % (key, json.dumps(b)), put(key, b), "shape"))
        elif k.kind == "container":
            for b in (1, "a", True, [1], [{}], ["a"], [], None, [None]):
                out.append((path, "%s = %s" % (key, json.dumps(b)), put(key, b), "shape"))
            out += jmutations(fmt, k, v, path + (key,))
        else:
            for b in (1, "a", True, ["a"], [1], None) + (([{"k": "a"}],) if fmt == "json" else ({"k": "a"}, {"a": {"k": "a"}})):
                out.append((path, "%s = %s" % (key, json.dumps(b)), put(key, b), "shape"))
            for i, e in entries(fmt, v):
                for b in (1, "a", [1], None):
                    out.append((path + (key,), "%s[%s] = %s" % (key, i, json.dumps(b)), put(i, b), "shape"))
                if fmt == "ietf":
                    for n in k.keys:
                        out.append((path + (key, i), "%s[%s] without %s" % (key, i, n), lambda o, n=n: o.pop([x for x in o if x.split(":")[-1] == n][0]), "shape"))
                elif k.keys:
                    for b in wrong_names(k, i):
                        out.append((path + (key,), "%s[%s] called %r" % (key, i, b), lambda o, i=i, b=b: o.__setitem__(b, o.pop(i)), "value"))
                out += jmutations(fmt, k, e, path + (key, i))
    return out


def near_names(sch, d):
    have = {k.name for k in sch.kids} | {k.py for k in sch.kids}
    out = ["no-such"]
    for k in sch.kids[:3]:
        for n in (k.name + "x", k.name[:-1], k.name.upper(), "_" + k.name):
            if n and n not in have and n not in out:
                out.append(n)
    return out


def wrong(fmt, ty):
    """JSON values outside the type"""
    out = [v for v in split(ty)[2] if isinstance(v, (int, str, float)) and not isinstance(v, bool)]
    return out[:4]


def wrong_names(k, name):
    """names of an entry that no key values have"""
    out = []
    parts = name.split(" ") if len(k.keys) > 1 else [name]
    if len(parts) != len(k.keys):
        return []
    for i, n in enumerate(k.keys):
        for b in split(k.find(n).ty)[2]:
            if isinstance(b, str) and " " not in b and b:
                out.append(" ".join(parts[:i] + [b] + parts[i + 1 :]))
    return out


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def xmutations(sch, el, path=()):
    """the same for elements"""
    out = []
    ns = etree.QName(el).namespace

    def child(name, text=None, sub=None):
        def f(o):
            c = etree.SubElement(o, "{%s}%s" % (ns, name))
            c.text = text
            if sub:
                etree.SubElement(c, "{%s}%s" % (ns, sub)).text = "1"

        return f

    for bad in near_names(sch, {}):
        out.append((path, "unknown <%s/>" % bad, child(bad), "unknown"))
        out.append((path, "unknown <%s>a</>" % bad, child(bad, "a"), "unknown"))
        out.append((path, "unknown <%s><a/></>" % bad, child(bad, None, "a"), "unknown"))
    for i, c in enumerate(el):
        k = kind_of(sch, etree.QName(c).localname)
        p = path + (i,)
        if k.kind in ("leaf", "leaf-list"):
            for b in [v for v in split(k.ty)[2] if isinstance(v, str)] + (["99999999999999999999999"] if isinstance(unwrap(k.ty), Int) else []):
                out.append((p, "%s: %r" % (k.name, b), lambda o, b=b: setattr(o, "text", b), "value"))
            out.append((p, "%s: element content" % k.name, lambda o: (setattr(o, "text", None), etree.SubElement(o, "{%s}a" % ns)), "shape"))
        else:
            out.append((p, "text in %s" % k.name, lambda o: setattr(o, "text", "x"), "shape"))
            if k.kind == "list":
                for n in k.keys:
                    out.append((p, "entry of %s without %s" % (k.name, n), lambda o, n=n: [o.remove(x) for x in list(o) if etree.QName(x).localname == n], "shape"))
            out += xmutations(k, c, p)
    return out


def xat(el, path):
    for p in path:
        el = el[p]
    return el


def load(fmt, doc, mod, schema, **kw):
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindJSONDecoder

    py = serial.pyname(schema)
    if fmt == "xml":
        el = objectify.fromstring(etree.tostring(doc), parser=objectify.makeparser(remove_comments=True, remove_blank_text=True))
        return pybindIETFXMLDecoder.load_xml(el, mod, py, **kw)
    f = pybindJSONDecoder.load_json if fmt == "json" else pybindJSONDecoder.load_ietf_json
    return f(doc, mod, py, **kw)


_J = {}


def _explore(item):
    label, ti, fmt = item
    spec, trees = _J[label]
    schema = spec.schema
    mod = built(schema)
    res = core.new_result()
    real, model = spec.start()
    for op in trees[ti]:
        spec.apply(real, model, op, check=False)
    text = serial.FORMATS[fmt].dump(real.root)
    if fmt == "xml":
        doc = etree.fromstring(text, parser=etree.XMLParser(remove_blank_text=True))
        muts = xmutations(schema.root, doc)
    else:
        doc = json.loads(text)
        muts = jmutations(fmt, schema.root, doc)
    plain = tree.rsnap(schema.root, load(fmt, copy.deepcopy(doc), mod, schema))
    for path, what, change, kind in muts:
        mut = copy.deepcopy(doc)
        change(xat(mut, path) if fmt == "xml" else at(mut, path))
        where = "/".join(map(str, path))

        def report(msg):
            t = etree.tostring(mut).decode() if fmt == "xml" else json.dumps(mut)
            res["viol"].append(("%s: %s: %s: /%s: %s" % (label, fmt, kind, where, what), "%s\ndocument: %s" % (msg, t[:600]), {"yang": schema.texts(), "document": t, "format": fmt}))

        res["transitions"] += 1
        core.bump(res, "%s %s" % (fmt, kind))
        try:
            load(fmt, copy.deepcopy(mut), mod, schema)
            report("accepted")
        except Exception:
            pass
        if kind == "unknown" and fmt != "xml":
            try:
                got = tree.rsnap(schema.root, load(fmt, copy.deepcopy(mut), mod, schema, skip_unknown=True))
            except Exception as e:
                report("with unknown names skipped, it is refused: %s: %s" % (type(e).__name__, str(e)[:200]))
                continue
            d = tree.diff(serial.content(got), serial.content(plain))
            if d:
                report("with unknown names skipped, the rest is not loaded as without them: " + d)
    res["states"] += 1
    res["traces"] += 1
    res["samples"] = [{"schema": label, "format": fmt, "mutations": len(muts)}]
    return res


def run(ctx):
    _J.clear()
    items = []
    for f in SHAPES:
        s = f(False)
        ops = ops_for(s, good=2, bad=0, badkeys=0, keys=2, llgood=2, lls=("append",), keyset=False, internal=True)
        spec = Spec(s.label, s, ops, 0)
        try:
            built(s)
        except Exception as e:
            ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
            continue
        trees = [full(spec), full(spec, True)]
        single = [(o,) for o in ops if o[0] in ("set", "ll", "add", "presence")]
        seen = set()
        for h in single:  # one for every node when quick, else one for every value
            if not (ctx.quick and h[0][1] in seen):
                seen.add(h[0][1])
                trees.append(h)
        _J[s.label] = (spec, trees)
        items += [(s.label, t, fmt) for t in range(len(trees)) for fmt in serial.FORMATS if not (f is schemas.keyless and fmt == "xml")]
        ctx.bound("%s: every single mutation of the documents of %d trees, 3 formats" % (s.label, len(trees)))
    core.pmerge(ctx, _explore, items)
