"""R08: dumps of a part, without parts, or of selected entries, and unfiltered dumps, against the dump of the whole.

For every state of bounded histories and full trees: every container, list and entry is dumped by itself in three formats;
every node is skipped, from every object; every leaf of every list is selected on, with every value it has and others."""
import itertools
import json

from lxml import etree

from mc import core, schemas, serial, structs, tree
from mc.alphabet import ops_for
from mc.checks.r07 import histories
from mc.checks.s11 import full
from mc.explore import Spec, built
from mc.serial import Entries, same, val_default, val_ietf
from mc.tree import C, Case, Ch, LL, Leaf, Lst, Mod, Schema, leaf_default, real_tag, canon_tag
from mc.ytypes import Bool, Dec, Enum, Int, Str, derive


class Anything:
    """what an unset leaf without a default is written as"""


def deep(sch, mc, val, name, parent):
    """expected unfiltered document"""
    out = {}
    for n, k in mc.kids.items():
        s = k.sch
        m = name(s, parent)
        if s.kind == "leaf":
            d = leaf_default(s)
            out[m] = val(s.ty, k.v[0], s) if k.v is not None else Anything() if d is None else val(s.ty, d, s)
        elif s.kind == "leaf-list":
            out[m] = [val(s.ty, v, s) for v in k.vals]
        elif s.kind == "list":
            es = [deep(s, e, val, name, s.mod.name) for e in k.ents.values()]
            if val is val_ietf and not es:
                continue
            out[m] = es if val is val_ietf else Entries(es)
            if s.user and val is not val_ietf:
                for i, e in enumerate(es):
                    e["__yang_order"] = i
        else:
            d = deep(s, k, val, name, s.mod.name)
            if d or val is not val_ietf or (s.presence and k.present):
                out[m] = d
    return out


def jdiff(got, want, path=""):
    if isinstance(want, Anything):
        return None
    if isinstance(want, Entries) and isinstance(got, dict) and len(got) == len(want):
        for (k, g), w in zip(got.items(), want):
            d = jdiff(g, w, "%s[%s]" % (path, k))
            if d:
                return d
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return "%s: %s, expected the members %s" % (path or "/", tree.short(got), sorted(want))
        for k in want:
            d = jdiff(got[k], want[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(want, list) and want != [None]:
        if not isinstance(got, list) or len(got) != len(want):
            return "%s: %s, expected %s" % (path, tree.short(got), tree.short(want))
        return next((d for d in (jdiff(g, w, "%s[%d]" % (path, i)) for i, (g, w) in enumerate(zip(got, want))) if d), None)
    return None if same(got, want) else "%s: %r, expected %r" % (path, got, want)


def deep_xml(sch, mc):
    """[(namespace, name, value or children)] of the unfiltered document"""
    out = []
    for n, k in mc.kids.items():
        s, ns = k.sch, k.sch.mod.ns
        if s.kind == "leaf":
            d = k.v[0] if k.v is not None else leaf_default(s)
            out.append((ns, n, Anything() if d is None else xml_value(s.ty, d)))
        elif s.kind == "leaf-list":
            out += [(ns, n, xml_value(s.ty, v)) for v in k.vals]
        elif s.kind == "list":
            out += [(ns, n, deep_xml(s, e)) for e in k.ents.values()]
        else:
            out.append((ns, n, deep_xml(s, k) or ([] if s.presence and k.present else None)))
    return out


def xml_value(ty, c):
    ty, c = serial.member(ty, c)
    return serial.AsDec(c, True) if isinstance(ty, Dec) else ty.xml(c) or ""


def xdiff(el, want, path=""):
    # a container without content may be there or not
    empty = {w[:2] for w in want if w[2] is None}
    want = [w for w in want if w[2] is not None]
    el = [c for c in el if len(c) or (etree.QName(c).namespace, etree.QName(c).localname) not in empty]
    got = [(etree.QName(c).namespace, etree.QName(c).localname) for c in el]
    if got != [w[:2] for w in want]:
        return "%s: elements %s, expected %s" % (path or "/", got, [w[:2] for w in want])
    for c, (_, n, v) in zip(el, want):
        if isinstance(v, list):
            d = xdiff(c, v, path + "/" + n)
            if d:
                return d
        elif not isinstance(v, Anything) and not same(c.text or "", v):
            return "%s/%s: %r, expected %r" % (path, n, c.text, v)


def nonempty(d):
    """without empty leaf-lists and containers"""
    if isinstance(d, dict):
        out = {k: nonempty(v) for k, v in d.items()}
        return {k: v for k, v in out.items() if v not in ({}, [])}
    if isinstance(d, list):
        return [nonempty(x) for x in d]
    return d


def local(n):
    return n.split(":")[-1]


def parts(schema, root):
    """[(schema node, object, data steps, model path)]: every container, whole list and entry"""
    out = [(schema.root, root, (), True)]

    def walk(sch, o, steps):
        for k in sch.kids:
            r = getattr(o, k.py)
            if k.kind == "container":
                out.append((k, r, steps + (k.name,), True))
                walk(k, r, steps + (k.name,))
            elif k.kind == "list":
                out.append((k, r, steps + (k.name,), False))
                for i, t in enumerate(list(r)):
                    st = steps + (k.name, i)
                    out.append((k, r[t], st, True))
                    walk(k, r[t], st)

    walk(schema.root, root, ())
    return out


def sub(doc, steps):
    """the part of a JSON document, None when it is not there"""
    for s in steps:
        if doc is None:
            return None
        if isinstance(s, int):
            doc = list(doc.values() if isinstance(doc, dict) else doc)[s]
        else:
            doc = {local(k): v for k, v in doc.items()}.get(s)
    return doc


def requalified(doc, sch, entries):
    """the members at the top of a part are qualified"""
    names = {k.name: k.mod.name for k in sch.kids}
    if not entries:
        return [requalified(d, sch, True) for d in doc]
    return {k if ":" in k else "%s:%s" % (names[k], k): v for k, v in doc.items()}


def prune(sch, doc, rel, entry):
    """take the nodes at a path out of a JSON document"""
    if not entry:
        for d in doc.values() if isinstance(doc, dict) else doc:
            prune(sch, d, rel, True)
        return
    for k in list(doc):
        if local(k) == rel[0]:
            if len(rel) == 1:
                del doc[k]
            else:
                n = sch.find(rel[0])
                prune(n, doc[k], rel[1:], n.kind != "list")


def all_paths(schema):
    out = []

    def walk(n, p):
        for k in n.kids:
            out.append(p + (k.name,))
            if k.kind in ("container", "list"):
                walk(k, p + (k.name,))

    walk(schema.root, ())
    return out


def names(steps):
    return tuple(s for s in steps if not isinstance(s, int))


def texts(steps):
    return "/" + "/".join(str(s) for s in steps)


def judge(schema, real, model, select=True):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindIETFXMLEncoder

    n = 0
    root = real.root
    ps = parts(schema, root)
    whole = {m: json.loads(pybindJSON.dumps(root, mode=m)) for m in ("default", "ietf")}
    xml = etree.fromstring(pybindIETFXMLEncoder.serialise(root), parser=etree.XMLParser(remove_blank_text=True))

    # unfiltered
    for m, val, nm in (("default", val_default, lambda s, p: s.name), ("ietf", val_ietf, lambda s, p: s.name if s.mod.name == p else "%s:%s" % (s.mod.name, s.name))):
        n += 1
        try:
            d = jdiff(json.loads(pybindJSON.dumps(root, mode=m, filter=False)), deep(schema.root, model.root, val, nm, None))
        except Exception as e:
            d = "%s: %s" % (type(e).__name__, e)
        if d:
            return n, [("unfiltered %s" % m, d)]

    from pyangbind.lib.serialise import WithDefaults

    for o, want in [(root, whole["ietf"])]:
        for flt in (True, False):
            n += 1
            try:
                got = json.loads(pybindJSON.dumps(o, mode="ietf", filter=flt, with_defaults=WithDefaults.IF_SET))
            except Exception as e:
                got = "%s: %s" % (type(e).__name__, e)
            if nonempty(got) != nonempty(want):
                return n, [("with-defaults", "set data: %s, expected %s" % (got, want))]

    n += 1
    try:
        d = xdiff(etree.fromstring(pybindIETFXMLEncoder.serialise(root, filter=False), parser=etree.XMLParser(remove_blank_text=True)), deep_xml(schema.root, model.root))
    except Exception as e:
        d = "%s: %s" % (type(e).__name__, e)
    if d:
        return n, [("unfiltered xml", d)]

    # parts
    for sch, o, steps, entry in ps:
        where = texts(steps)
        for m in whole:
            n += 1
            want = sub(whole[m], steps)
            if want is None:
                want = {} if entry or m == "default" else []
            if steps and isinstance(steps[-1], int):  # an entry by itself has no place in an order
                want = {k: v for k, v in want.items() if k != "__yang_order"}
            if m == "ietf":
                want = requalified(want, sch, entry)
            for indent in (4, None):
                try:
                    got = json.loads(pybindJSON.dumps(o, mode=m, indent=indent))
                except Exception as e:
                    got = "%s: %s" % (type(e).__name__, e)
                if got != want or json.dumps(got) != json.dumps(want):
                    return n, [("part, %s" % m, "dump of %s: %s, expected %s" % (where, tree.short(got), tree.short(want)))]
        if entry and steps:
            n += 1
            el = xml
            for s in steps:  # a list is the elements of its name
                if isinstance(s, int):
                    el = el[s] if len(el) > s else None
                else:
                    el = [c for e in (el if isinstance(el, list) else [el]) if e is not None for c in e if etree.QName(c).localname == s]
                if isinstance(el, list) and len(el) == 1 and not isinstance(s, int) and sch_at(schema, names(steps[: steps.index(s) + 1])).kind == "container":
                    el = el[0]
                if el is None or el == []:
                    el = None
                    break
            try:
                got = etree.tostring(etree.fromstring(pybindIETFXMLEncoder.serialise(o), parser=etree.XMLParser(remove_blank_text=True)), method="c14n", exclusive=True)
            except Exception as e:
                got = "%s: %s" % (type(e).__name__, e)
            want = etree.tostring(el, method="c14n", exclusive=True) if el is not None else b'<%s xmlns="%s"></%s>' % (sch.name.encode(), sch.mod.ns.encode(), sch.name.encode())
            if got != want:
                return n, [("part, xml", "XML of %s: %s, expected %s" % (where, got, want))]

    # without parts
    paths = all_paths(schema)
    pairs = [(p,) for p in paths] + [c for c in itertools.combinations(paths, 2) if len(paths) < 12 or c[0] == paths[0] or c[1] == paths[-1]]
    for sch, o, steps, entry in ps:
        at = names(steps)
        skipped = pairs
        if steps:  # a path that is elsewhere comes with every path below the object, before it and after it
            inside = [p for p in paths if p[: len(at)] == at and len(p) > len(at)]
            outside = [p for p in paths if p[: len(at)] != at][:: max(1, len(paths) - 1)]
            skipped = [(p,) for p in paths] + [c for i in inside for u in outside for c in ((i, u), (u, i))] + [(inside[0], i) for i in inside[1:]]
        for m in whole:
            text = pybindJSON.dumps(o, mode=m)
            for skips in skipped:
                n += 1
                try:
                    want = json.loads(text)
                    for p in skips:
                        if p[: len(at)] == at and len(p) > len(at):
                            prune(sch, want, p[len(at) :], entry)
                    got = json.loads(pybindJSON.dumps(o, mode=m, skip_subtrees=["/" + "/".join(p) for p in skips]))
                except Exception as e:
                    got = "%s: %s" % (type(e).__name__, e)
                if got != want:
                    return n, [("skip, %s" % m, "dump of %s skipping %s: %s, expected %s" % (texts(steps), ["/" + "/".join(p) for p in skips], str(got)[:300], str(want)[:300]))]

    # selected entries
    for sch, o, steps, entry in ps:
        if entry or sch.kind != "list":
            continue
        es = list(o.values())
        conds = []
        for path, leaf in leaves(sch):
            vals = []
            for e in es:
                x = at_path(e, path)
                if x._changed():
                    v = plain(leaf.ty, x)
                    if v not in vals:
                        vals.append(v)
            conds += [(".".join(k.name for k in path), path, leaf, v) for v in vals + ["no such value"]]
        sels = [(c,) for c in conds] + [c for c in itertools.combinations(conds, 2) if c[0][0] != c[1][0]][:40]
        for sel in sels:
            if not all(at_path(e, c[1])._changed() for e in es for c in sel):
                continue  # a node that not every entry has
            keep = [i for i, e in enumerate(es) if all(plain(c[2].ty, at_path(e, c[1])) == c[3] for c in sel)]
            for m in whole:
                n += 1
                arg = {c[0]: c[3] for c in sel}
                try:
                    doc = json.loads(pybindJSON.dumps(o, mode=m))
                    want = {k: v for i, (k, v) in enumerate(doc.items()) if i in keep} if m == "default" else [v for i, v in enumerate(doc) if i in keep]
                    got = json.loads(pybindJSON.dumps(o, mode=m, select=dict(arg)))
                except Exception as e:
                    got = "%s: %s" % (type(e).__name__, e)
                if unordered(got) != unordered(want):
                    return n, [("select, %s" % m, "dump of %s selecting %s: %s, expected %s" % (texts(steps), arg, str(got)[:300], str(want)[:300]))]
    return n, []


def unordered(d):
    """without the positions of entries, which are those among the selected ones"""
    if isinstance(d, dict):
        return [(k, unordered(v)) for k, v in d.items() if k != "__yang_order"]
    return d


def sch_at(schema, names):
    n = schema.root
    for x in names:
        n = n.find(x)
    return n


def leaves(sch, path=()):
    out = []
    for k in sch.kids:
        if k.kind == "leaf":
            out.append((path + (k,), k))
        elif k.kind == "container":
            out += leaves(k, path + (k,))
    return out


def at_path(o, path):
    for k in path:
        o = getattr(o, k.py)
    return o


def plain(ty, x):
    """the value as Python would write it"""
    t = real_tag(ty, x)
    return bool(t[1]) if t[0] == "b" else x if t[0] == "d" else t[1]


def selects(xpath=False):
    """entries whose leaves are of many types, with containers that repeat their names"""
    body = lambda: (
        Leaf("s", Str("1..3")),
        Leaf("i", Int("int8", "0..99")),
        Leaf("e", Enum("on", "off")),
        Leaf("b", Bool()),
        Leaf("dd", derive("td", Str("0..3"), Str("0..3")), default="dd"),
        C("in", Leaf("s", Str("1")), C("in", Leaf("s", Int("uint8")), Leaf("k", Str("1")))),
    )
    return Schema(
        "selects",
        Mod("m", C("c", Lst("l", "k", Leaf("k", Str("1..3")), *body()), Lst("u", "k j", Leaf("k", Int("uint8", "0..9")), Leaf("j", Bool()), *body()[:2], user=True))),
        Mod("w", imports=("m",), augments=[("/m:c/m:l/m:in", [C("x", Leaf("s", Str("1"))), Leaf("wk", Str("1"))])]),
        xpath=xpath,
    )


def many():
    """three entries, with every node set, that agree and disagree in their leaves"""
    out = []
    for i, (k, s, e, b) in enumerate((("s", "a", "on", True), ("in", "b", "off", False), ("l", "a", "off", True))):
        p = ("c", ("l", k))
        out += [("add", ("c", "l"), {"k": k}), ("set", p + ("s",), s), ("set", p + ("i",), i % 2), ("set", p + ("e",), e), ("set", p + ("b",), b), ("set", p + ("dd",), s)]
        out += [("set", p + ("in", "s"), s), ("set", p + ("in", "in", "s"), i), ("set", p + ("in", "in", "k"), s), ("set", p + ("in", "x", "s"), "b"), ("set", p + ("in", "wk"), s)]
        out += [("add", ("c", "u"), {"k": i, "j": b}), ("set", ("c", ("u", "%d %s" % (i, b)), "s"), s), ("set", ("c", ("u", "%d %s" % (i, b)), "i"), i)]
    return out


_SPECS = {}


def _judge(item):
    label, hists = item
    spec = _SPECS[label]
    res = core.new_result()
    for h in hists:
        real, model = spec.start()
        ops = [spec.ops[j] if isinstance(j, int) else j for j in h]
        for o in ops:
            Spec.apply(spec, real, model, o, check=False)
        res["states"] += 1
        res["traces"] += 1
        try:
            n, v = judge(spec.schema, real, model)
            res["transitions"] += n
        except Exception as e:
            v = [("crash", "%s: %s" % (type(e).__name__, e))]
        for aspect, msg in v:
            ht = "; ".join(map(tree.op_text, ops))
            res["viol"].append(("%s: %s" % (label, aspect), msg + "\nhistory: " + ht, {"spec": label, "history": ht, "yang": spec.schema.texts()}))
    core.bump(res, label, len(hists))
    return res


def run(ctx):
    _SPECS.clear()
    items = []
    for f in structs.SHAPES + (selects,):
        if f is schemas.keyless:
            continue  # entries are kept under names made up anew
        s = f(False)
        ops = ops_for(s, good=2, bad=0, badkeys=0, keys=2, llgood=2, lls=("append", "pop"), keyset=False, internal=True, inplace=False)
        spec = Spec(s.label, s, ops, 0)
        try:
            built(s)
        except Exception as e:
            ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
            continue
        _SPECS[spec.label] = spec
        hs = histories(spec, 2 if ctx.quick else 3)
        for rev in (False, True):
            fl = full(spec, rev)
            hs += [tuple(fl), tuple(fl[: len(fl) // 2]), tuple(fl[::2])]
        if f is selects:
            hs += [tuple(many()), tuple(many()[:11]), tuple(many()[:28])]
        items += [(spec.label, hs[i : i + 10]) for i in range(0, len(hs), 10)]
        ctx.bound("%s: %d states (histories up to 2 operations, and full trees)" % (spec.label, len(hs)))
    core.pmerge(ctx, _judge, items)
