"""X04: extension methods are bound to exactly the objects at the paths they are given for, whatever happened to the tree.

Histories of the tree checks on bindings with extension methods; in every reached state, each live object has the methods of its schema path
and those only, and every call of one reaches the instance that was given, with its arguments, the caller and the path helper."""
import json

from mc import core, schemas, tree
from mc.alphabet import ops_for, split
from mc.checks.x01 import KEYED_OPS, keyed
from mc.explore import Spec, built, run_specs
from mc.tree import C, LL, Leaf, Lst, Mod, Schema, safe
from mc.ytypes import Bool, Empty, Enum, Int, Reject, Str, Union


class Callable:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, *a, **kw):
        return (self.tag, a, kw)


class Base:
    """what user code may give: methods, inherited ones, class and static methods, callable members, and members that are no methods"""

    attr = 3
    text = "go"

    def __init__(self, tag):
        self.tag = tag
        self.member = Callable(tag)

    def _private(self, *a, **kw):
        return None

    def inherited(self, *a, **kw):
        return (self.tag, a, kw)


class First(Base):
    def go(self, *a, **kw):
        return (self.tag, a, kw)

    def method(self, *a, **kw):
        return (self.tag, a, kw)

    def zeta(self, first="none", *a, **kw):
        return (self.tag, (first,) + a, kw)


class Second(Base):
    def go(self, *a, **kw):
        return (self.tag, a, kw)

    def other(self, *a, **kw):
        return (self.tag, a, kw)

    @classmethod
    def made(cls, *a, **kw):
        return (cls.__name__, a, kw)

    @staticmethod
    def still(*a, **kw):
        return ("still", a, kw)


METHODS = {"First": {"go", "method", "zeta", "inherited", "member"}, "Second": {"go", "other", "made", "still", "inherited", "member"}, None: set()}
NAMES = sorted(set().union(*METHODS.values()) | {"attr", "text", "tag", "private"})


def paths(sch, prefix=""):
    out = []
    for k in sch.kids:
        p = prefix + "/" + k.name
        out.append(p)
        if k.kind in ("container", "list"):
            out += paths(k, p)
    return list(dict.fromkeys(out))


def objects(sch, o, path="", keyed=True):
    """(schema path, object, registered) of all live objects, lists and their entries too"""
    out = []
    for k in sch.kids:
        r, p = getattr(o, k.py), path + "/" + k.name
        out.append((p, r, keyed and k.kind != "list"))
        if k.kind == "container":
            out += objects(k, r, p, keyed)
        elif k.kind == "list":
            for t in list(r):
                e = r[t]
                out.append((p, e, keyed and bool(k.keys)))
                out += objects(k, e, p, keyed and bool(k.keys))
    return out


def given(mode, ps):
    """the dictionary of extension methods"""
    if mode == "all":
        return {p: (First if i % 2 else Second)(p) for i, p in enumerate(ps)}
    if mode == "none of the tree":  # paths of no object: filters, other roots, unfinished and longer ones, the root
        return {q: First(q) for p in ps for q in (p + "[k='a']", p[1:], p + "/", "/x" + p, p.upper(), "/", "") if q not in ps}
    if mode == "empty":
        return {}
    return {mode: First(mode)}


def judge(ext, root, sch, helper):
    for p, o, registered in objects(sch, root):
        inst = ext.get(p)
        want = METHODS[type(inst).__name__ if inst is not None else None]
        got = {n for n in NAMES if callable(getattr(o, "_" + n, None))}
        if got != want:
            return ("methods of %s" % p, "%s has the methods %s, expected %s" % ("/".join(o._path()), sorted(got), sorted(want)))
        for n in sorted(want):
            for a, kw in (((), {}), ((1, "two"), {"three": 3}), (("x",), {"caller": "me", "path_helper": "mine"})):
                try:
                    tag, ra, rkw = getattr(o, "_" + n)(*a, **kw)
                except Exception as e:
                    return ("call of %s" % p, "%s._%s%s raised %r" % (p, n, a, e))
                rkw = dict(rkw)
                caller, ph = rkw.pop("caller", None), rkw.pop("path_helper", None)
                if tag != {"made": "Second", "still": "still"}.get(n, p):
                    return ("call of %s" % p, "the call of %s._%s reached the instance of %s" % (p, n, tag))
                want_a = a if n != "zeta" or a else ("none",)
                if ra != want_a or rkw != {k: v for k, v in kw.items() if k not in ("caller", "path_helper")}:
                    return ("call of %s" % p, "%s._%s(*%r, **%r) was called with %r, %r" % (p, n, a, kw, ra, rkw))
                if not isinstance(caller, list) or "/" + "/".join(x.split("[")[0] for x in caller) != p or caller != o._path():
                    return ("caller of %s" % p, "%s._%s has the caller %r" % (p, n, caller))
                if registered and helper is not None:
                    if ph is not helper:
                        return ("path helper of %s" % p, "%s._%s has the path helper %r" % (p, n, ph))
                    found = ph.get(caller)
                    if len(found) != 1 or found[0] is not o:
                        return ("caller of %s" % p, "%s._%s has the caller %r, at which %d objects are found" % (p, n, caller, len(found)))
    return None


class Ext(Spec):
    mode = "all"

    def start(self):
        helper = None
        if self.schema.xpath:
            from pyangbind.lib.xpathhelper import YANGPathHelper

            helper = YANGPathHelper()
        real = tree.Real(self.schema, built(self.schema), helper)
        real.ext = given(self.mode, paths(self.schema.root))
        cls = getattr(real.mod, safe(self.schema.main.name))
        real.root = cls(extmethods=real.ext, **({} if helper is None else {"path_helper": helper}))
        return real, tree.Model(self.schema)

    def extra(self, real, model, op):
        v = judge(real.ext, real.root, self.schema.root, real.helper)
        return [v] if v else []


def unions(xpath=False):
    """leaves whose objects are of several Python types, and those that cannot have attributes of their own without a class"""
    return Schema(
        "leaves",
        Mod("m", C("c", Leaf("u", Union(Int("int8"), Str("1..3"))), Leaf("b", Bool(), default="true"), Leaf("e", Empty()), LL("bl", Bool()), Lst("l", "k j", Leaf("k", Union(Int("uint8"), Str("1"))), Leaf("j", Enum("on", "off")), Leaf("em", Empty()), Leaf("b", Bool())))),
        xpath=xpath,
    )


def flagged(s):
    s.flags.append("--use-extmethods")
    s.label += "" if not s.xpath else " with helper"
    return s


# --- bindings that loaders make ------------------------------------------------------------------


def contents(sch, n):
    """instance data in IETF JSON: every leaf, n entries of every list"""
    out, cases = {}, {}
    for k in sch.kids:
        if any(cases.setdefault((k.choices[:i], ch), case) != case for i, (ch, case) in enumerate(k.choices)):
            continue  # of another case
        if k.kind == "container":
            out[k.name] = contents(k, n)
        elif k.kind == "list":
            es = []
            for i in range(n):
                e = contents(k, n)
                for key in k.keys:
                    e[key] = sample(k.find(key).ty, i)
                es.append(e)
            out[k.name] = es
        elif k.kind == "leaf":
            out[k.name] = sample(k.ty, 0)
        else:
            out[k.name] = [sample(k.ty, 0)]
    return out


def sample(ty, i):
    """a value, of two, in JSON"""
    ty = tree.unwrap(ty)
    if isinstance(ty, Str):
        return next(v for v in ("ab"[i], "ab"[i] * 2, "ab"[i] * 3) if taken(ty, v))
    if type(ty).__name__ in VALUES:
        return VALUES[type(ty).__name__][i]
    return split(ty)[0][i]


def taken(ty, v):
    try:
        ty.value(v)
    except Reject:
        return False
    return True


VALUES = {"Int": [1, 2], "Bool": [True, False], "Dec": ["1.5", "2.5"], "Union": [1, 2], "Empty": [[None], [None]], "Bits": ["", ""], "Binary": ["YQ==", "Yg=="]}


def loaded(item):
    label, mode, how, n = item
    from lxml import objectify
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
    from pyangbind.lib.xpathhelper import YANGPathHelper

    res = core.new_result()
    s = next(x for x in all_schemas() if x.label == label)
    mod = built(s)
    ps = paths(s.root)
    ext = given(mode, ps)
    data = contents(s.root, n)
    name = s.main.name
    if how == "xml" and label.startswith("keyless"):
        return res  # not implemented by the loader
    source = getattr(mod, safe(name))()
    pybindJSON.pybindJSONDecoder.load_ietf_json(data, None, None, obj=source)
    as_json, as_xml = pybindJSON.dumps(source), pybindIETFXMLEncoder.serialise(source)

    def load(fresh, methods):
        helper = YANGPathHelper() if s.xpath else None
        kw = {} if helper is None else {"path_helper": helper}
        if fresh:
            if how == "ietf":
                return helper, pybindJSON.loads_ietf(data, mod, name, extmethods=methods, **kw)
            if how == "json":
                return helper, pybindJSON.loads(json.loads(as_json), mod, name, extmethods=methods, **kw)
            return helper, pybindIETFXMLDecoder.load_xml(objectify.fromstring(as_xml), mod, name, extmethods=methods, **kw)
        root = getattr(mod, safe(name))(extmethods=methods, **kw)
        for _ in range(2):  # also what is there already
            if how == "ietf":
                pybindJSON.pybindJSONDecoder.load_ietf_json(data, None, None, obj=root, extmethods=methods)
            elif how == "json":
                pybindJSON.pybindJSONDecoder.load_json(json.loads(as_json), None, None, obj=root, extmethods=methods)
            else:
                pybindIETFXMLDecoder.load_xml(objectify.fromstring(as_xml), None, None, obj=root, extmethods=methods)
        return helper, root

    for fresh in (True, False):
        try:
            helper, root = load(fresh, ext)
            v = judge(ext, root, s.root, helper)
            if not v:
                d = tree.diff(tree.rsnap(s.root, root), tree.rsnap(s.root, load(fresh, None)[1]))
                v = ("data", "not as without extension methods: %s" % d) if d else None
        except Exception as e:
            v = ("loading", "raised %r" % e)
        res["traces"] += 1
        res["states"] += 1
        res["transitions"] += 1
        if v:
            res["viol"].append(("%s: %s into %s: %s" % (label, how, "new bindings" if fresh else "bindings", v[0]), v[1], {"methods for": mode, "data": data, "yang": s.texts()}))
    core.bump(res, "%s %s" % (label, how))
    return res


def all_schemas():
    fs = (schemas.basic, schemas.choices, schemas.presences, schemas.keyless, schemas.modules, schemas.orders, unions)
    return [flagged(f(x)) for f in fs for x in (False, True)] + [flagged(keyed())]


def run(ctx):
    depth = 2 if ctx.quick else 4
    specs, items = [], []
    for s in all_schemas():
        built(s)
        ops = KEYED_OPS if s.label.startswith("keyed") else ops_for(s, good=2, bad=1, badkeys=1, llgood=1, lls=("append", "assign", "pop") if not s.label.startswith("keyless") else ("append", "pop"), keyset=False)
        specs.append(Ext(s.label, s, ops, depth, masks={"changed": False, "present": False}))
        ps = paths(s.root)
        few = [p for i, p in enumerate(ps) if not ctx.quick or i % 3 == 0]
        for mode in few + ["none of the tree", "empty"]:
            specs.append(Ext("%s, %s" % (s.label, mode), s, ops, 1 if ctx.quick else 2, mode=mode, masks={"changed": False, "present": False}))
        items += [(s.label, mode, how, n) for mode in ps + ["all", "none of the tree", "empty"] for how in ("ietf", "json", "xml") for n in (1, 2)]
    run_specs(ctx, specs)
    core.pmerge(ctx, loaded, items)
    ctx.bound("%d schemas, with and without the path helper; histories of %d operations with methods for every path, of %d for each single path, paths of no object, and none" % (len(all_schemas()), depth, 1 if ctx.quick else 2))
    ctx.bound("%d loads of full instance data, by each loader, into new and into existing bindings" % (2 * len(items)))
    ctx.assumptions = ["no method of a given instance has the name that an internal method of the bindings has after its underscore"]
