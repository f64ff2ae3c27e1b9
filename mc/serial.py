"""Reference encodings of a model tree (the library's JSON, RFC 7951 JSON, XML) and comparison with the real documents.

The encoders are written from the RFCs and docs/serialisation.md; decimals are compared as numbers in the lexical form
the standard gives them, everything else must be equal."""
import json
import re
from decimal import Decimal

from lxml import etree

from mc import tree
from mc.tree import klex, real_tag, unwrap
from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, IdRef, Int, Leafref, Str, Union


class AsDec:
    """a decimal, in whatever way the format writes decimals"""

    def __init__(self, d, text):
        self.d, self.text = d, text

    def __repr__(self):
        return "decimal %s" % format(self.d, "f")


class Entries(list):
    """the entries of a list: an object whose members have names of the library's choosing"""


class OneOf:
    """several spellings that mean the same"""

    def __init__(self, *vals):
        self.vals = vals

    def __repr__(self):
        return " or ".join(map(repr, self.vals))


def member(ty, c):
    ty = unwrap(ty)
    while isinstance(ty, (Union, Leafref)):
        if isinstance(ty, Union):
            ty, c = unwrap(ty.members[c[0]]), c[1]
        else:
            ty = unwrap(ty.target)
    return ty, c


def val_default(ty, c, node):
    ty, c = member(ty, c)
    if isinstance(ty, Dec):
        return AsDec(c, False)
    if isinstance(ty, IdRef):  # held as it was given
        return OneOf(c, *["%s:%s" % (p, c) for p in ty.pfx.get(c, ())])
    return ty.djson(c)


def val_ietf(ty, c, node):
    ty, c = member(ty, c)
    if isinstance(ty, Dec):
        return AsDec(c, True)
    if isinstance(ty, IdRef):
        m = ty.accepted[c]
        q = "%s:%s" % (m, c)
        return OneOf(c, q) if m == node.mod.name else q
    return ty.ietf(c)


DECIMAL = re.compile(r"-?[0-9]+(\.[0-9]+)?")


def same(got, want):
    if isinstance(want, OneOf):
        return any(same(got, w) for w in want.vals)
    if isinstance(want, AsDec):
        if isinstance(got, bool):
            return False
        if want.text and not (isinstance(got, str) and DECIMAL.fullmatch(got)):
            return False
        try:
            return Decimal(repr(got) if isinstance(got, float) else got) == want.d
        except Exception:
            return False
    return type(got) is type(want) and got == want


def doc_default(sch, mc):
    """expected default JSON of a model container"""
    out = {}
    for name, k in mc.kids.items():
        s = k.sch
        if s.kind == "leaf":
            if k.v is not None:
                out[name] = val_default(s.ty, k.v[0], s)
        elif s.kind == "leaf-list":
            if k.vals:
                out[name] = [val_default(s.ty, v, s) for v in k.vals]
        elif s.kind == "list":
            if k.ents:
                out[name] = Entries(doc_default(s, e) for e in k.ents.values())
                if s.user:
                    for i, e in enumerate(out[name]):
                        e["__yang_order"] = i
        else:
            d = doc_default(s, k)
            if d or (s.presence and k.present):
                out[name] = d
    return out


def doc_ietf(sch, mc, parent=None):
    out = {}
    for name, k in mc.kids.items():
        s = k.sch
        n = name if s.mod.name == parent else "%s:%s" % (s.mod.name, name)
        if s.kind == "leaf":
            if k.v is not None:
                out[n] = val_ietf(s.ty, k.v[0], s)
        elif s.kind == "leaf-list":
            if k.vals:
                out[n] = [val_ietf(s.ty, v, s) for v in k.vals]
        elif s.kind == "list":
            if k.ents:
                out[n] = [doc_ietf(s, e, s.mod.name) for e in k.ents.values()]
        else:
            d = doc_ietf(s, k, s.mod.name)
            if d or (s.presence and k.present):
                out[n] = d
    return out


def jdiff(got, want, path="", order=True):
    """first difference between a JSON document and the expected one"""
    if isinstance(want, Entries):
        if not isinstance(got, dict) or len(got) != len(want):
            return "%s: %s, expected an object with %d members" % (path, tree.short(got), len(want))
        return jdiff(list(got.values()), list(want), path)
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: %s, expected an object" % (path or "/", tree.short(got))
        for k in got:
            if k not in want:
                return "%s: unexpected member %r = %s" % (path or "/", k, tree.short(got[k]))
        for k in want:
            if k not in got:
                return "%s: member %r (%s) is missing" % (path or "/", k, tree.short(want[k]))
            d = jdiff(got[k], want[k], "%s/%s" % (path, k))
            if d:
                return d
        if order and list(got) != [k for k in want]:
            return "%s: members in the order %s, expected %s" % (path or "/", list(got), list(want))
        return None
    if isinstance(want, list) and want != [None]:
        if not isinstance(got, list) or len(got) != len(want):
            return "%s: %s, expected %s" % (path, tree.short(got), tree.short(want))
        for i, (g, w) in enumerate(zip(got, want)):
            d = jdiff(g, w, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if same(got, want) else "%s: %r, expected %r" % (path, got, want)


def doc_xml(sch, mc):
    """[(namespace, name, text or None or IdRef pair, children)]"""
    out = []
    for name, k in mc.kids.items():
        s = k.sch
        ns = s.mod.ns

        def leaf(c):
            ty, c = member(s.ty, c)
            if isinstance(ty, IdRef):
                return (ns, name, ("identity", c, ty.accepted[c]), [])
            return (ns, name, AsDec(c, True) if isinstance(ty, Dec) else ty.xml(c) or "", [])

        if s.kind == "leaf":
            if k.v is not None:
                out.append(leaf(k.v[0]))
        elif s.kind == "leaf-list":
            out += [leaf(v) for v in k.vals]
        elif s.kind == "list":
            out += [(ns, name, "", doc_xml(s, e)) for e in k.ents.values()]
        else:
            d = doc_xml(s, k)
            if d or (s.presence and k.present):
                out.append((ns, name, "", d))
    return out


def xdiff(el, want, mods, path=""):
    """first difference between an lxml element's children and the expected ones"""
    kids = list(el)
    got = ["{%s}%s" % (etree.QName(c).namespace, etree.QName(c).localname) for c in kids]
    exp = ["{%s}%s" % w[:2] for w in want]
    if got != exp:
        return "%s: elements %s, expected %s" % (path or "/", got, exp)
    for c, (ns, name, text, sub) in zip(kids, want):
        p = path + "/" + name
        if sub:
            d = xdiff(c, sub, mods, p)
            if d:
                return d
            continue
        if len(c):
            return "%s: unexpected content %s" % (p, etree.tostring(c)[:80])
        t = c.text or ""
        if isinstance(text, tuple):
            pfx, _, n = t.rpartition(":")
            if n != text[1] or c.nsmap.get(pfx or None) != mods[text[2]].ns:
                return "%s: identity %r resolves to %s in namespace %s, expected %s in %s" % (p, t, n, c.nsmap.get(pfx or None), text[1], mods[text[2]].ns)
        elif not same(t, text):
            return "%s: %r, expected %r" % (p, t, text)
    return None


# ---- the library's formats ---------------------------------------------------------------------
def pyname(schema):
    return tree.safe(schema.main.name)


class Default:
    name = "json"

    @staticmethod
    def dump(o):
        from pyangbind.lib import pybindJSON

        return pybindJSON.dumps(o)

    @staticmethod
    def diff(text, schema, model):
        return jdiff(json.loads(text), doc_default(schema.root, model.root))

    @staticmethod
    def load(text, mod, schema, **kw):
        from pyangbind.lib import pybindJSON

        return pybindJSON.loads(text, mod, pyname(schema), **kw)


class Ietf(Default):
    name = "ietf"

    @staticmethod
    def dump(o):
        from pyangbind.lib import pybindJSON

        return pybindJSON.dumps(o, mode="ietf")

    @staticmethod
    def diff(text, schema, model):
        return jdiff(json.loads(text), doc_ietf(schema.root, model.root))

    @staticmethod
    def load(text, mod, schema, **kw):
        from pyangbind.lib import pybindJSON

        return pybindJSON.loads_ietf(text, mod, pyname(schema), **kw)


class Xml(Default):
    name = "xml"

    @staticmethod
    def dump(o):
        from pyangbind.lib.serialise import pybindIETFXMLEncoder

        return pybindIETFXMLEncoder.serialise(o)

    @staticmethod
    def diff(text, schema, model):
        el = etree.fromstring(text, parser=etree.XMLParser(remove_blank_text=True))
        qn = etree.QName(el)
        if (qn.namespace, qn.localname) != (schema.main.ns, schema.main.name):
            return "document element {%s}%s" % (qn.namespace, qn.localname)
        return xdiff(el, doc_xml(schema.root, model.root), {m.name: m for m in schema.mods})

    @staticmethod
    def load(text, mod, schema, **kw):
        from pyangbind.lib.serialise import pybindIETFXMLDecoder

        if kw:
            from lxml import objectify

            doc = objectify.fromstring(text, parser=objectify.makeparser(remove_comments=True, remove_blank_text=True))
            return pybindIETFXMLDecoder.load_xml(doc, mod, pyname(schema), **kw)
        return pybindIETFXMLDecoder.decode(text, mod, pyname(schema))


FORMATS = {"json": Default, "ietf": Ietf, "xml": Xml}


def content(snap):
    """a snapshot without the changed flags of things that are not leaves (an emptied list is like one never used)

    and without the spelling of list keys: the key leaves of the entries tell what they are"""

    def number(s):
        if s[0] == "list":
            return s[:2] + (tuple((str(i), number(e)) for i, (_, e) in enumerate(s[2])),)
        if s[0] == "c":
            return s[:3] + (tuple((n, number(k)) for n, k in s[3]),)
        return s

    return number(tree.mask(snap, changed=False))


def findable(o, mc, path=""):
    """every list entry is found by its key"""
    for name, k in mc.kids.items():
        if k.sch.kind == "list":
            lst = getattr(o, k.sch.py)
            for (t, e), (real_t, real_e) in zip(k.ents.items(), lst.items()):
                if not k.sch.keys or len(t.split(" ")) != len(k.sch.keys):
                    continue
                if t not in lst or lst[t] is not real_e or real_t not in lst:
                    return "%s/%s: no entry is found by the key %r" % (path, name, t)
                d = findable(real_e, e, "%s/%s[%s]" % (path, name, t))
                if d:
                    return d
        elif k.sch.kind == "container":
            d = findable(getattr(o, k.sch.py), k, path + "/" + name)
            if d:
                return d


def helper_for(schema):
    if not schema.xpath:
        return {}
    from pyangbind.lib.xpathhelper import YANGPathHelper

    return {"path_helper": YANGPathHelper()}


def round_trip(fmt, schema, mod, real, model, exact=True):
    """-> [(aspect, message)]"""
    try:
        text = fmt.dump(real.root)
    except Exception as e:
        return [("%s encode" % fmt.name, "serialising raised %s: %s" % (type(e).__name__, str(e)[:300]))]
    if exact:
        try:
            d = fmt.diff(text, schema, model)
        except Exception as e:
            return [("%s document" % fmt.name, "not a well-formed document: %r %s" % (e, text[:300]))]
        if d:
            return [("%s document" % fmt.name, "%s\ndocument: %s" % (d, re.sub(r"\s+", " ", text)[:600]))]
    try:
        obj = fmt.load(text, mod, schema, **helper_for(schema))
        got = tree.rsnap(schema.root, obj)
    except Exception as e:
        return [("%s decode" % fmt.name, "loading the document raised %s: %s\ndocument: %s" % (type(e).__name__, str(e)[:300], re.sub(r"\s+", " ", text)[:600]))]
    d = tree.diff(content(got), content(model.snap())) or findable(obj, model.root)
    if d:
        return [("%s round trip" % fmt.name, "%s\ndocument: %s" % (d, re.sub(r"\s+", " ", text)[:600]))]
    return []
