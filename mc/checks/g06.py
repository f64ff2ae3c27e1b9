"""G06: what RPCs and notifications carry is generated in trees of their own, which hold data as configuration does, and stay apart from it."""
import copy
import itertools
import json

from mc import core, genbind, schemas, serial, tree
from mc.alphabet import ops_for
from mc.checks import g01
from mc.checks.g01 import Ctx, E, Gen, Skip
from mc.checks.s02 import Pair, Two, ids
from mc.explore import run_specs
from mc.tree import C, LL, Leaf, Lst, Mod, Model, Real, Schema, safe
from mc.ytypes import Enum, Int, Str, Union

FLAGS = ("--build-rpcs", "--build-notifications", "--presence")


# ---- structure ------------------------------------------------------------------------------------
def payload(g, c):
    ns = c.ns

    def leaf(n, **kw):
        kw.setdefault("type", "string")
        return E("leaf", n, ns, True, **kw)

    def ch(x, *cases):
        x.cases = cases
        return x

    text, nodes = g01.small(g, c)
    return (
        text + "leaf-list ll { type string; } leaf-list ul { type uint8; ordered-by user; }\n"
        "list l2 { key 'k-1 k.2'; ordered-by user; leaf k.2 { type string; } leaf k-1 { type uint8; } container in { leaf x { type string; } } }\n"
        "leaf class { type string; } container import { leaf in { type string; } }\n"
        "choice c0 { case p { leaf p1 { type string; } container p3 { leaf x { type string; } } } leaf-list q { type string; } }\n",
        nodes
        + [
            E("leaf-list", "ll", ns, True, type="string"),
            E("leaf-list", "ul", ns, True, type="uint8"),
            E("list", "l2", ns, True, [leaf("k.2", key=True), leaf("k-1", type="uint8", key=True), E("container", "in", ns, True, [leaf("x")])], keys="k-1 k.2", user=True),
            leaf("class"),
            E("container", "import", ns, True, [leaf("in")]),
            ch(leaf("p1"), ("c0", "p")),
            ch(E("container", "p3", ns, True, [leaf("x")]), ("c0", "p")),
            ch(E("leaf-list", "q", ns, True, type="string"), ("c0", "q")),
        ],
    )


# config statements are not for operations
WRAPPERS = [w for w in g01.WRAPPERS if w not in ("state", "keyless", "short", "refine", "blist")]
PARTS = ("input", "output", "notification")


def small(g, c):
    return "leaf v { type int8; }\n", [E("leaf", "v", c.ns, True, type="int8")]


def texts(items, pfx, naming, where, op, part):
    """bodies in one part of the operation `op` of module m or its submodule; the other operations have nodes of the same names"""
    g = Gen(pfx, naming)
    parent = [("m", op)] if part == "notification" else [("m", op), ("m", part)]
    body, nodes = "", []
    for g.n, chain in items:
        save = {f: len(g.top[f]) for f in g01.FILES}
        try:
            t, got = g.build(chain, 1, Ctx(where, "m", list(parent), True), payload)
        except Skip:
            for f in g01.FILES:
                del g.top[f][save[f] :]
            continue
        body += t
        for x in got:
            x.chain = " > ".join(chain)
        nodes += got
    p = g.pfx
    aug = "".join("/%s:%s" % (p["b", "m"], n) for _, n in parent)
    g.top["b"].append("augment '%s' { leaf added { type string; } }\n" % aug)
    nodes.append(E("leaf", "added", "b", True, type="string"))
    other = "leaf other-%s { type string; }"
    if part == "notification":
        stmt = "notification %s { %s }\n" % (op, body)
        rest = "rpc twin { input { leaf lf { type string; } } output { %s } }\n" % (other % "o")
    else:
        no = {"input": "output", "output": "input"}[part]
        stmt = "rpc %s { %s { %s } %s { %s } }\n" % (op, part, body, no, other % no)
        rest = "notification twin { leaf lf { type string; } }\n"
    conf = "container conf { leaf lf { type string; } }\n"
    out = {
        "m": "module m { yang-version 1.1; namespace 'urn:m'; prefix %s; import a { prefix %s; } include ms;\n" % (p["m", "m"], p["m", "a"]) + conf,
        "ms": "submodule ms { yang-version 1.1; belongs-to m { prefix %s; } import a { prefix %s; }\n" % (p["ms", "m"], p["ms", "a"]),
        "a": "module a { yang-version 1.1; namespace 'urn:a'; prefix %s;\n" % p["a", "a"],
        "b": "module b { yang-version 1.1; namespace 'urn:b'; prefix %s; import m { prefix %s; } import a { prefix %s; }\n" % (p["b", "b"], p["b", "m"], p["b", "a"]),
    }
    for f in out:
        if f != "m":
            out[f] += "typedef td { type string; default of-%s; }\n" % f
        out[f] += "".join(g.top[f]) + (stmt if f == where else "") + (rest if f == "m" else "") + "}\n"
    return out, nodes


def explore(item):
    items, pfx, naming, where, op, part, flags = item
    res = core.new_result()
    t, nodes = texts(items, pfx, naming, where, op, part)
    seen = set()

    def bad(kind, at, text):
        top = at.split("/")[1] if "/" in at else ""
        chain = next((x.chain for x in nodes if x.name == top.replace("[]", "") and hasattr(x, "chain")), "")
        key = "%s: %s in %s" % (kind, chain, part)
        if key not in seen:
            seen.add(key)
            res["viol"].append((key, "%s: %s (%s of %r, in %s, %s prefixes, %s names)" % (at, text, part, op, where, pfx, naming), {"yang": t}))

    twin = "m_rpc.twin.input" if part == "notification" else "m_notification.twin"
    # a package that is called as its module is is named with an underscore behind it
    name = safe(op)
    root = "m_notification" if part == "notification" else "m_rpc"
    try:
        pkg = genbind.build_split(t, main=["m", "b"], flags=FLAGS + flags, also=[twin, root])
        holder = getattr(pkg, root).m()
        objs = [getattr(holder, name)]
        if part != "notification":
            objs = [getattr(objs[0], part)]
        if op != "m":
            # the documented way to it
            path = "%s.%s" % (root, name) if part == "notification" else "%s.%s.%s" % (root, name, part)
            pkg = genbind.build_split(t, main=["m", "b"], flags=FLAGS + flags, also=[twin, path])
            cls = pkg
            for n in path.split("."):
                cls = getattr(cls, n)
            objs.append(getattr(cls, path.split(".")[-1])())
    except Exception as e:
        if len(items) > 1:
            for k in items[: len(items) // 2], items[len(items) // 2 :]:
                r = explore((k, pfx, naming, where, op, part, flags))
                for key in ("states", "transitions", "traces"):
                    res[key] += r[key]
                res["viol"] += r["viol"]
                if r["viol"]:
                    break
            return res
        res["viol"].append(("bindings unusable: %s in %s" % (" > ".join(items[0][1]), part), str(e)[-1500:], {"yang": t}))
        return res
    for o in objs:
        g01.compare(nodes, o, part, res, bad)
    g01.compare([E("container", "conf", "m", True, [E("leaf", "lf", "m", True, type="string")])], pkg.m(), "configuration", res, bad)
    if part == "notification":
        g01.compare([E("leaf", "lf", "m", True, type="string")], pkg.m_rpc.twin.input.input(), "twin", res, bad)
    else:
        g01.compare([E("leaf", "lf", "m", True, type="string")], pkg.m_notification.twin.twin(), "twin", res, bad)
        other = getattr(getattr(holder, name), {"input": "output", "output": "input"}[part])
        if list(other._pyangbind_elements) != ["other_" + {"input": "output", "output": "input"}[part]]:
            bad("nodes", "the other half", "has %s" % list(other._pyangbind_elements))
    res["traces"] += len(items)
    return res


def selection(ctx):
    """operations are generated when they are asked for, each in the tree of its own module, and never in the configuration"""
    t = {
        "m": "module m { yang-version 1.1; namespace 'urn:m'; prefix m; include ms; leaf conf { type string; } rpc one { input { leaf x { type string; } } output { leaf y { type string; } } }"
        " rpc two { input { leaf z { type string; } } } rpc three { output { leaf z { type string; } } } rpc four; notification n1 { leaf e { type string; } } }",
        "ms": "submodule ms { yang-version 1.1; belongs-to m { prefix m; } rpc sub { input { leaf s { type string; } } } notification n2 { leaf e { type string; } } leaf sconf { type string; } }",
        "b": "module b { yang-version 1.1; namespace 'urn:b'; prefix b; import m { prefix m; } leaf conf { type string; } rpc one { input { leaf bx { type string; } } } notification n1 { leaf be { type string; } } }",
    }
    want = {
        "m_rpc": {"one": {"input": ["x"], "output": ["y"]}, "two": {"input": ["z"]}, "three": {"output": ["z"]}, "four": {}, "sub": {"input": ["s"]}},
        "b_rpc": {"one": {"input": ["bx"]}},
        "m_notification": {"n1": ["e"], "n2": ["e"]},
        "b_notification": {"n1": ["be"]},
    }
    for n in range(3):
        for flags in itertools.combinations(("--build-rpcs", "--build-notifications"), n):
            for xp in (), ("--use-xpathhelper",):
                for main in itertools.permutations("mb"):
                    ask = [k for k in want if ("--build-rpcs" in flags and k.endswith("rpc")) or ("--build-notifications" in flags and k.endswith("tion"))]
                    at = "%s, %s first" % (" ".join(flags + xp) or "no options", main[0])

                    def shape(o):
                        kids = {k: getattr(o, k) for k in o._pyangbind_elements}
                        if kids and not any(hasattr(k, "_pyangbind_elements") for k in kids.values()):
                            return sorted(kids)
                        return {k: shape(v) for k, v in kids.items()}

                    try:
                        pkg = genbind.build_split(t, main=list(main), flags=flags + xp, also=ask)
                        got = {k: shape(getattr(getattr(pkg, k), k.split("_")[0])()) for k in ask}
                    except Exception as e:
                        ctx.violation("selection: unusable", "%s: %s" % (at, str(e)[-1500:]), {"yang": t})
                        continue
                    ctx.states += len(ask)
                    for k in ask:
                        if got[k] != want[k]:
                            ctx.violation("selection: %s" % k, "%s: %s has %s, expected %s" % (at, k, got[k], want[k]), {"yang": t})
                    for k in set(want) - set(ask):
                        try:
                            genbind.build_split(t, main=list(main), flags=flags + xp, also=[k])
                            ctx.violation("selection: not asked for", "%s: %s is generated" % (at, k), {"yang": t})
                        except ImportError:
                            pass
                    for m, kids in ("m", ["conf", "sconf"]), ("b", ["conf"]):
                        if sorted(getattr(pkg, m)()._pyangbind_elements) != kids:
                            ctx.violation("selection: configuration", "%s: %s has %s, expected %s" % (at, m, list(getattr(pkg, m)()._pyangbind_elements), kids), {"yang": t})


# ---- histories ------------------------------------------------------------------------------------
PLACES = ("configuration", "input", "output", "notification")
PATH = {"input": "m_rpc.do_it.input.input", "output": "m_rpc.do_it.output.output", "notification": "m_notification.note.note"}
NAMES = {"configuration": "m", "input": "input", "output": "output", "notification": "note"}


class Place(Schema):
    """the tree of a body in one of the places of a module that has it in all"""

    def __init__(self, f, place, xpath):
        proto = f()
        super().__init__(proto.label, *proto.mods, xpath=xpath)
        self.place, self.proto = place, proto

    def texts(self):
        m = self.main
        kids = "".join(c.text() for c in m.children)
        body = m.body + "rpc do-it { input { %s } output { %s } }\nnotification note { %s }\n" % (kids, kids, kids)
        full = Mod(m.name, *m.children, prefix=m.prefix, imports=m.imports, body=body, ver=m.ver)
        return {m.name: full.text()}

    def build(self, flags=None):
        return genbind.build_split(self.texts(), flags=tuple(self.flags) + FLAGS[:2], also=[PATH[p].rsplit(".", 1)[0] for p in PATH])

    def new(self, mod, helper=None):
        cls = mod.m
        if self.place != "configuration":
            cls = mod
            for n in PATH[self.place].split("."):
                cls = getattr(cls, n)
        return cls(path_helper=helper) if helper is not None else cls()


class Json(serial.Default):
    @staticmethod
    def load(text, mod, schema, **kw):
        from pyangbind.lib.serialise import pybindJSONDecoder

        return pybindJSONDecoder.load_json(json.loads(text), None, None, obj=schema.new(mod, kw.get("path_helper")))


class Ietf(serial.Ietf):
    @staticmethod
    def load(text, mod, schema, **kw):
        from pyangbind.lib.serialise import pybindJSONDecoder

        return pybindJSONDecoder.load_ietf_json(json.loads(text), None, None, obj=schema.new(mod, kw.get("path_helper")))


class Xml(serial.Xml):
    @staticmethod
    def diff(text, schema, model):
        named = copy.copy(schema)
        named.main = copy.copy(schema.main)
        named.main.name = NAMES[schema.place]
        return serial.Xml.diff(text, named, model)

    @staticmethod
    def load(text, mod, schema, **kw):
        from lxml import objectify
        from pyangbind.lib.serialise import pybindIETFXMLDecoder

        doc = objectify.fromstring(text, parser=objectify.makeparser(remove_comments=True, remove_blank_text=True))
        return pybindIETFXMLDecoder.load_xml(doc, None, None, obj=schema.new(mod, kw.get("path_helper")))


class Four(Two):
    """one instance in each place, with one path helper for all"""

    def start(self):
        from mc.explore import built

        helper = None
        if self.schema.xpath:
            from pyangbind.lib.xpathhelper import YANGPathHelper

            helper = YANGPathHelper()
        return Pair([Real(s, built(self.schema), helper) for s in self.schemas]), Pair([Model(s) for s in self.schemas])

    def check(self, real, model, op, want):
        for p, r, m in zip(PLACES, real.members, model.members):
            d = tree.diff(tree.mask(r.snap()), tree.mask(m.snap()))
            if d:
                return [(p, d)]
            for f in (True, False):
                if r.view(f) != m.view(None, f):
                    return [("%s view" % p, "get(filter=%s) gives %s, expected %s" % (f, tree.short(r.view(f)), tree.short(m.view(None, f))))]
        helper = real.members[0].helper
        if helper is not None:
            conf = real.members[0]
            found = [x for x in helper.get("//*") if type(x).__name__ != "FakeRoot"]
            own = set(ids(self.schemas[0].root, conf.root)) | {id(conf.root)}
            for x in found:
                if id(x) not in own and x is not conf.root and hasattr(x, "_path"):
                    return [("registry", "the path helper finds %s, which is not configuration" % "/".join(x._path()))]
            lost = [o for o in held(self.schemas[0].root, conf.root) if not any(x is o for x in found)]
            if lost:
                return [("registry", "the path helper does not find %s" % "/".join(lost[0]._path()))]
        # what is created now starts out empty
        for s in self.schemas:
            r, m = Real(s, real.members[0].mod, None), Model(s)
            d = tree.diff(tree.mask(r.snap()), tree.mask(m.snap()))
            if d:
                return [("new %s" % s.place, "a new one is not empty: %s" % d)]
        if op is not None and want == "ok":
            i = op[1][0]
            i = int(i[1:]) if isinstance(i, str) else op[0]
            s = self.schemas[i]
            for fmt in (Json, Ietf, Xml):
                if i == 0 and fmt is not Json:
                    continue
                out = serial.round_trip(fmt, s, real.members[0].mod, real.members[i], model.members[i])
                if out:
                    return [("%s %s" % (s.place, a), t) for a, t in out]
        return []


def held(sch, o):
    """the containers and list entries that exist"""
    for k in sch.kids:
        r = getattr(o, k.py)
        if k.kind == "container":
            yield r
            yield from held(k, r)
        elif k.kind == "list" and k.keys:
            for t in list(r):
                yield r[t]
                yield from held(k, r[t])


def body():
    """one of each"""
    one = lambda n: Leaf(n, Str("1"))
    return Schema(
        "body",
        Mod(
            "m",
            C("c", one("a"), C("p", one("x"), presence=True), Lst("l", "k", one("k"), one("v"), C("n", one("z"), Lst("i", "k", one("k"))))),
            Lst("t", "j k", one("j"), Leaf("k", Int("uint8")), user=True),
            Leaf("d", Union(Int("uint8", "1..5"), Enum("auto")), default="auto"),
            LL("ll", Str("1")),
        ),
    )


# ---- references -----------------------------------------------------------------------------------
REF = """module m { yang-version 1.1; namespace 'urn:m'; prefix m;
container t { list l { key k; leaf k { type string; } } leaf-list ll { type uint8; } }
grouping g {
  leaf lk { type leafref { path "/m:t/m:l/m:k"; } }
  leaf nk { type leafref { path "/t/l/k"; } }
  leaf lv { type leafref { path "/m:t/m:ll"; } }
  leaf-list ls { type leafref { path "/m:t/m:l/m:k"; } }
  leaf u { type union { type leafref { path "/m:t/m:l/m:k"; } type enumeration { enum none; } } }
  list r { key k; leaf k { type string; } leaf lk { type leafref { path "/m:t/m:l/m:k"; } } }
}
rpc do-it { input { uses g; container c { uses g; } } output { uses g; } } notification note { uses g; } }"""
OWN = """module m { yang-version 1.1; namespace 'urn:m'; prefix m;
rpc do-it { input { leaf-list ll { type string; } leaf up { type leafref { path "../ll"; } }
  list l { key k; leaf k { type string; } leaf-list z { type string; } } leaf k { type leafref { path "../l/k"; } } leaf z { type leafref { path "../l[k=current()/../k]/z"; } } }
  output { leaf out { type string; } } } }"""


def references(ctx):
    """every history of changes to the configuration, then every reference in every place is tried with every value"""
    from pyangbind.lib.xpathhelper import YANGPathHelper

    pkg = genbind.build_split({"m": REF}, flags=FLAGS + ("--use-xpathhelper",), also=[PATH[p].rsplit(".", 1)[0] for p in PATH])
    ops = [("add", "a"), ("add", "b"), ("delete", "a"), ("append", 5), ("append", 7), ("remove", 5)]
    refused = (ValueError, KeyError, AttributeError)

    def places(h):
        out = [(n, obj(pkg, n)(path_helper=h)) for n in PATH]
        out.append(("container in the input", out[0][1].c))
        return out

    for n in range(4 if ctx.quick else 6):
        for hist in itertools.product(ops, repeat=n):
            h = YANGPathHelper()
            conf = pkg.m(path_helper=h)
            keys, vals = [], []
            alive = places(h)  # these exist before the configuration does
            for op, v in hist:
                if op == "add" and v not in keys:
                    conf.t.l.add(v)
                    keys.append(v)
                elif op == "delete" and v in keys:
                    conf.t.l.delete(v)
                    keys.remove(v)
                elif op == "append" and v not in vals:
                    conf.t.ll.append(v)
                    vals.append(v)
                elif op == "remove" and v in vals:
                    conf.t.ll.remove(v)
                    vals.remove(v)
                else:
                    break
            else:
                ctx.states += 1
                text = ", ".join("%s %s" % o for o in hist) or "nothing"
                for when, objs in ("before", alive), ("after", places(h)):
                    for place, o in objs:
                        for leaf, cands, ok in (
                            ("lk", ("a", "b", "c"), keys),
                            ("nk", ("a", "b", "c"), keys),
                            ("lv", (5, 7, 9), vals),
                            ("u", ("a", "b", "none", "c"), keys + ["none"]),
                            ("ls", ("a", "b", "c"), keys),
                            ("r", ("a", "b", "c"), keys),
                        ):
                            for v in cands:
                                ctx.transitions += 1
                                try:
                                    if leaf == "ls":
                                        o.ls = [v]
                                    elif leaf == "r":
                                        o.r.add(str(len(o.r)))
                                        list(o.r.values())[-1].lk = v
                                    else:
                                        setattr(o, leaf, v)
                                    got = True
                                except refused:
                                    got = False
                                except Exception as e:
                                    got = repr(e)
                                if got is not (v in ok):
                                    ctx.violation(
                                        "references: %s in %s" % (leaf, place),
                                        "after %s, %s (made %s that) %s %r: %s" % (text, place, when, leaf, v, "is accepted" if got is True else "is refused" if got is False else got),
                                        {"yang": REF},
                                    )
                                elif got:
                                    held = list(getattr(o, leaf)) if leaf == "ls" else [list(o.r.values())[-1].lk] if leaf == "r" else [getattr(o, leaf)]
                                    if [str(x) for x in held] != [str(v)]:
                                        ctx.violation("references: %s in %s" % (leaf, place), "after %s, %s holds %s instead of %r" % (text, leaf, held, v), {"yang": REF})
    # known: what is in operations is not in the path helper, references between nodes of one operation find nothing
    pkg = genbind.build_split({"m": OWN}, flags=FLAGS + ("--use-xpathhelper",), also=["m_rpc.do_it.input"])
    for leaf in "up", "k", "z":
        i = obj(pkg, "input")(path_helper=YANGPathHelper())
        i.ll.append("a")
        i.l.add("a").z.append("a")
        try:
            if leaf == "z":
                i._set_k("a")
            setattr(i, leaf, "a")
        except Exception as e:
            ctx.violation("references within an operation: %s" % leaf, "a leafref in the input of an RPC whose target is in the same input refuses a value that the target has: %s" % type(e).__name__, {"yang": OWN})


def obj(pkg, place):
    for n in PATH[place].split("."):
        pkg = getattr(pkg, n)
    return pkg


def run(ctx):
    selection(ctx)
    chains = [c for n in (1, 2) for c in itertools.product(WRAPPERS, repeat=n)]
    alone = [c for c in chains if set(c) <= g01.TRANSPARENT]
    work = list(enumerate(chains))
    groups = [[x] for x in work if set(x[1]) <= g01.TRANSPARENT and (len(x[1]) == 1 or not ctx.quick)]
    rest = [x for x in work if not set(x[1]) <= g01.TRANSPARENT]
    groups += [rest[k : k + 40] for k in range(0, len(rest), 40)]
    items = []
    for k, g in enumerate(groups):
        for part in PARTS:
            items.append((g, "names", "distinct", "m", "do-it", part, ()))
            if len(g) > 1 or not ctx.quick:
                items.append((g, "others", "same", "m", "m", part, ("--use-xpathhelper",)))
                items.append((g, "others", "distinct", "ms", "x.y", part, ()))
    core.pmerge(ctx, explore, items)
    ctx.bound("%d chains of up to 2 of %d constructs in input, output and notification, in the module and its submodule; %d builds" % (len(chains), len(WRAPPERS), len(items)))
    specs = []
    for xpath in (False, True):
        ss = [Place(body, p, xpath) for p in PLACES]
        ops = ops_for(ss[0], good=1, bad=1, badkeys=0, llgood=1, lls=("append", "pop"), keyset=False, keys=1)
        specs.append(Four("four trees%s" % ("/xpath" if xpath else ""), ss[0], [(i,) + o for o in ops for i in range(4)], 2 if ctx.quick else 3, schemas=ss))
    run_specs(ctx, specs)
    references(ctx)
    ctx.bound("histories of up to %d changes of referenced configuration, then 6 references x 4 places x all values" % (3 if ctx.quick else 5))
