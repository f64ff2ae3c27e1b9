"""G01: the generated classes are the data nodes of the effective schema: every chain of up to three constructs (containers, lists,
choices, groupings of four kinds, refinements, augmentations of six kinds, submodules) around one set of nodes, generated and compared,
node by node, with an expansion of its own."""
import itertools

from mc import core, genbind
from mc.tree import safe

NS = {f: "urn:" + f for f in "mab"}
FILES = ("m", "ms", "a", "b")


class E:
    """an expected data node"""

    def __init__(self, kind, name, ns, config, kids=(), cases=(), **attrs):
        self.kind, self.name, self.ns, self.config, self.kids, self.cases, self.attrs = kind, name, ns, config, list(kids), cases, attrs


class Skip(Exception):
    """a combination that YANG does not allow"""


class Ctx:
    """where statements go: the file, the module whose namespace their nodes are in, the path of their parent, what they inherit"""

    def __init__(self, file, ns, path, config):
        self.file, self.ns, self.path, self.config = file, ns, path, config

    def at(self, **kw):
        c = Ctx(self.file, self.ns, self.path, self.config)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def down(self, *names, **kw):
        return self.at(path=self.path + [(self.ns, n) for n in names], **kw)


PFX = {
    "names": {("m", "m"): "m", ("m", "a"): "a", ("ms", "m"): "m", ("ms", "a"): "a", ("b", "b"): "b", ("b", "m"): "m", ("b", "a"): "a", ("a", "a"): "a"},
    "others": {("m", "m"): "b", ("m", "a"): "x", ("ms", "m"): "a", ("ms", "a"): "m", ("b", "b"): "m", ("b", "m"): "p", ("b", "a"): "q", ("a", "a"): "b"},
}


class Gen:
    def __init__(self, pfx, naming):
        self.pfx, self.naming = PFX[pfx], naming
        self.top = {f: [] for f in FILES}
        self.n = 0

    def prefix(self, file, mod):
        return self.pfx[(file, mod)]

    def name(self, kind, depth):
        if self.naming == "same" and kind in "clq":
            return "n%d" % self.n
        return "%s%d-x.%d" % (kind, depth, self.n)

    # constructs around the nodes; each returns (text to put here, nodes here, [checks])

    def build(self, chain, depth, c, payload):
        if not chain:
            return payload(self, c)
        return getattr(self, "w_" + chain[0])(chain[1:], depth, c, payload)

    def w_container(self, rest, d, c, p, extra="", **attrs):
        n = self.name("c", d)
        t, nodes = self.build(rest, d + 1, c.down(n), p)
        return "container %s { %s %s }\n" % (n, extra, t), [E("container", n, c.ns, c.config, nodes, **attrs)]

    def w_presence(self, rest, d, c, p):
        return self.w_container(rest, d, c, p, "presence 'yes';", presence=True)

    def w_state(self, rest, d, c, p):
        return self.w_container(rest, d, c.at(config=False), p, "config false;")

    def w_list(self, rest, d, c, p):
        n = self.name("l", d)
        t, nodes = self.build(rest, d + 1, c.down(n), p)
        key = E("leaf", "key", c.ns, c.config, type="string", key=True)
        return "list %s { key key; leaf key { type string; } %s }\n" % (n, t), [E("list", n, c.ns, c.config, [key] + nodes, keys="key")]

    def w_keyless(self, rest, d, c, p):
        n = self.name("q", d)
        t, nodes = self.build(rest, d + 1, c.down(n, config=False), p)
        return "list %s { config false; %s }\n" % (n, t), [E("list", n, c.ns, False, nodes, keys=False)]

    def choice(self, name, case, nodes, other):
        for x in nodes:
            x.cases = ((name, case),) + tuple(x.cases)
        other.cases = ((name, "other"),)
        return nodes + [other]

    def w_choice(self, rest, d, c, p):
        n, o = self.name("ch", d), self.name("o", d)
        t, nodes = self.build(rest, d + 1, c.down(n, "case" + str(d)), p)
        other = E("leaf", o, c.ns, c.config, type="string")
        return "choice %s { case case%d { %s } case other { leaf %s { type string; } } }\n" % (n, d, t, o), self.choice(n, "case%d" % d, nodes, other)

    def w_short(self, rest, d, c, p):
        """a choice whose case is a container, without a case statement, and has a config status"""
        n, o, s = self.name("ch", d), self.name("o", d), self.name("s", d)
        c = c.at(config=False)
        t, nodes = self.build(rest, d + 1, c.down(n, s, s), p)
        other = E("leaf", o, c.ns, False, type="string")
        return (
            "choice %s { config false; container %s { %s } case other { leaf %s { type string; } } }\n" % (n, s, t, o),
            self.choice(n, s, [E("container", s, c.ns, False, nodes)], other),
        )

    def uses(self, file, d, c, body, rest, p, deco="", pre=None):
        """a grouping in a file, used here"""
        g = "g%d-%d" % (self.n, d)
        t, nodes = self.build(rest, d + 1, c.at(file=file), p)
        self.top[file].append("grouping %s { %s }\n" % (g, t))
        mod = "m" if file == "ms" else file
        ref = g if file == c.file or {file, c.file} == {"m", "ms"} else "%s:%s" % (self.prefix(c.file, mod), g)
        return "uses %s;\n" % ref, nodes

    def w_grouping(self, rest, d, c, p):
        return self.uses(c.file, d, c, None, rest, p)

    def w_agrouping(self, rest, d, c, p):
        return self.uses("a", d, c, None, rest, p)

    def w_msgrouping(self, rest, d, c, p):
        if c.file in ("a", "b"):
            raise Skip()  # a does not import m, groupings of submodules are not looked up by pyang for b
        return self.uses("ms", d, c, None, rest, p)

    def w_scoped(self, rest, d, c, p):
        """a grouping that is defined inside a container and used there twice"""
        n, g = self.name("c", d), "gs%d" % d
        one, two = self.name("i", d), self.name("j", d)
        t, nodes = self.build(rest, d + 1, c.down(n, one), p)
        save = {f: len(self.top[f]) for f in FILES}
        t2, nodes2 = self.build(rest, d + 1, c.down(n, two), p)
        # groupings are defined once, the augmentations of both are needed
        for f in FILES:
            added = self.top[f][save[f] :]
            del self.top[f][save[f] :]
            self.top[f] += [x for x in added if x not in self.top[f]]
        if t != t2:
            raise Skip()
        return (
            "container %s { grouping %s { %s } container %s { uses %s; } container %s { uses %s; } }\n" % (n, g, t, one, g, two, g),
            [E("container", n, c.ns, c.config, [E("container", one, c.ns, c.config, nodes), E("container", two, c.ns, c.config, nodes2)])],
        )

    def w_usesaugment(self, rest, d, c, p):
        """a grouping with a container that the uses statement augments"""
        n, g, f = self.name("c", d), "gu%d-%d" % (self.n, d), self.name("f", d)
        t, nodes = self.build(rest, d + 1, c.down(n), p)
        self.top[c.file].append("grouping %s { container %s { leaf %s { type string; } } }\n" % (g, n, f))
        return "uses %s { augment %s { %s } }\n" % (g, n, t), [E("container", n, c.ns, c.config, [E("leaf", f, c.ns, c.config, type="string")] + nodes)]

    def w_refine(self, rest, d, c, p):
        """a grouping with a container that the uses statement makes one of state, with presence"""
        n, g = self.name("c", d), "gr%d-%d" % (self.n, d)
        t, nodes = self.build(rest, d + 1, c.down(n, config=False), p)
        self.top[c.file].append("grouping %s { container %s { %s } }\n" % (g, n, t))
        return "uses %s { refine %s { config false; presence 'yes'; } }\n" % (g, n), [E("container", n, c.ns, False, nodes, presence=True)]

    def augment(self, file, ns, rest, d, c, p, wrap="%s"):
        """augments the node at c.path; returns the nodes that are added"""
        mods = {x for x, _ in c.path}
        if file == "m" and "b" in mods:
            raise Skip()  # m does not import b
        path = "".join("/%s:%s" % (self.prefix(file, x), n) for x, n in c.path)
        t, nodes = self.build(rest, d + 1, c.at(file=file, ns=ns), p)
        self.top[file].append("augment '%s' { %s }\n" % (path, wrap % t))
        return nodes

    def w_augment(self, rest, d, c, p):
        return self.w_augmented(rest, d, c, p, "m", "m")

    def w_baugment(self, rest, d, c, p):
        return self.w_augmented(rest, d, c, p, "b", "b")

    def w_augmented(self, rest, d, c, p, file, ns):
        n, f = self.name("c", d), self.name("f", d)
        got = self.augment(file, ns, rest, d, c.down(n), p)
        return "container %s { leaf %s { type string; } }\n" % (n, f), [E("container", n, c.ns, c.config, [E("leaf", f, c.ns, c.config, type="string")] + got)]

    def w_blist(self, rest, d, c, p):
        """a list of state that is augmented"""
        n = self.name("l", d)
        got = self.augment("b", "b", rest, d, c.down(n, config=False), p)
        key = E("leaf", "key", c.ns, False, type="string", key=True)
        return "list %s { config false; key key; leaf key { type string; } }\n" % n, [E("list", n, c.ns, False, [key] + got, keys="key")]

    def w_bchoice(self, rest, d, c, p):
        """another module adds a case to a choice"""
        n, o = self.name("ch", d), self.name("o", d)
        inner = c.down(n)
        inner.path = inner.path
        # the nodes are in a case of module b
        path = list(inner.path)
        t, nodes = self.build(rest, d + 1, inner.at(file="b", ns="b", path=path + [("b", "bcase")]), p)
        self.top["b"].append("augment '%s' { case bcase { %s } }\n" % ("".join("/%s:%s" % (self.prefix("b", x), y) for x, y in path), t))
        other = E("leaf", o, c.ns, c.config, type="string")
        return "choice %s { case other { leaf %s { type string; } } }\n" % (n, o), self.choice(n, "bcase", nodes, other)

    def w_bcase(self, rest, d, c, p):
        """another module adds nodes to a case"""
        n, o, f = self.name("ch", d), self.name("o", d), self.name("f", d)
        got = self.augment("b", "b", rest, d, c.down(n, "case" + str(d)), p)
        other = E("leaf", o, c.ns, c.config, type="string")
        return (
            "choice %s { case case%d { leaf %s { type string; } } case other { leaf %s { type string; } } }\n" % (n, d, f, o),
            self.choice(n, "case%d" % d, [E("leaf", f, c.ns, c.config, type="string")] + got, other),
        )


WRAPPERS = [k[2:] for k in vars(Gen) if k.startswith("w_") and k != "w_augmented"]

TRANSPARENT = {"grouping", "agrouping", "msgrouping", "choice", "bchoice", "bcase"}
TEXT = "it's \\a \\\"very\\\" \\\\x \\\\N{} \\\\u1 'tricky' \\\"\\\"\\\" text %s {0} #"


def small(g, c):
    return (
        'leaf lf { type string; description "%s"; }\nleaf df { type uint8; default 7; }\nleaf td { type td; }\n' % TEXT.replace("\\a", ""),
        [
            E("leaf", "lf", c.ns, c.config, type="string"),
            E("leaf", "df", c.ns, c.config, type="uint8", default="7"),
            E("leaf", "td", c.ns, c.config, type="td", default="of-" + ("ms" if c.file == "m" else c.file)),
        ],
    )


def full(g, c):
    t, nodes = small(g, c)
    name = "gf-%s" % g.n
    text = "grouping %s { leaf r1 { type string; default a; config true; } leaf r2 { type td; } container r3 { leaf r4 { type int8; } list r5 { key k; leaf k { type string; } leaf r6 { type string; } } } }\n" % name
    if text not in g.top[c.file]:
        g.top[c.file].append(text)
    conf = "" if c.config else "config false; "
    t += (
        "uses %s { refine r1 { %sdefault b; } refine r2 { config false; default c; } refine r3 { presence p; } refine r3/r4 { default 3; } refine r3/r5/r6 { default d; } }\n" % (name, conf)
        + "leaf-list ll { type string; }\nleaf-list ul { type uint8; ordered-by user; }\nleaf st { config false; type string; }\n"
        + "list l2 { key 'k-1 k.2'; ordered-by user; leaf k.2 { type string; } leaf v { type string; } leaf k-1 { type uint8; } container in { leaf x { type string; } } }\n"
        + "leaf class { type string; } leaf list { type string; } leaf a-b { type string; } leaf x.y { type empty; } container import { leaf in { type string; } }\n"
        + "choice c0 { case p { leaf p1 { type string; } choice c1 { leaf p2 { type string; } container p3 { leaf x { type string; } } } } leaf-list q { type string; } list s { key k; leaf k { type string; } } }\n"
    )
    cf = c.config
    ns = c.ns

    def leaf(n, config=cf, **kw):
        kw.setdefault("type", "string")
        return E("leaf", n, ns, config, **kw)

    def ch(x, *cases):
        x.cases = cases
        return x

    nodes += [
        leaf("r1", default="b"),
        leaf("r2", False, type="td", default="c"),
        E(
            "container",
            "r3",
            ns,
            cf,
            [leaf("r4", type="int8", default="3"), E("list", "r5", ns, cf, [leaf("k", key=True), leaf("r6", default="d")], keys="k")],
            presence=True,
        ),
        E("leaf-list", "ll", ns, cf, type="string"),
        E("leaf-list", "ul", ns, cf, type="uint8"),
        leaf("st", False),
        E("list", "l2", ns, cf, [leaf("k.2", key=True), leaf("v"), leaf("k-1", type="uint8", key=True), E("container", "in", ns, cf, [leaf("x")])], keys="k-1 k.2", user=True),
        leaf("class"),
        leaf("list"),
        leaf("a-b"),
        leaf("x.y", type="empty"),
        E("container", "import", ns, cf, [leaf("in")]),
        ch(leaf("p1"), ("c0", "p")),
        ch(leaf("p2"), ("c0", "p"), ("c1", "p2")),
        ch(E("container", "p3", ns, cf, [leaf("x")]), ("c0", "p"), ("c1", "p3")),
        ch(E("leaf-list", "q", ns, cf, type="string"), ("c0", "q")),
        ch(E("list", "s", ns, cf, [leaf("k", key=True)], keys="k"), ("c0", "s")),
    ]
    return t, nodes


def texts(items, pfx, naming):
    """items: [(chain, payload, where)]; -> modules, expected nodes at the root of m, labels of the items"""
    g = Gen(pfx, naming)
    nodes = []
    body = {"m": [], "ms": []}
    for g.n, (chain, payload, where) in items:
        save = {f: len(g.top[f]) for f in FILES}
        try:
            got = g.build(chain, 1, Ctx(where, "m", [], True), payload)
        except Skip:
            for f in FILES:
                del g.top[f][save[f] :]
            continue
        body[where].append(got[0])
        for x in got[1]:
            x.chain = "%s %s" % (" > ".join(chain), "" if where == "m" else "in a submodule")
        nodes += got[1]
    p = g.pfx
    head = {
        "m": "module m { yang-version 1.1; namespace 'urn:m'; prefix %s; import a { prefix %s; } include ms;\n" % (p["m", "m"], p["m", "a"]),
        "ms": "submodule ms { yang-version 1.1; belongs-to m { prefix %s; } import a { prefix %s; }\n" % (p["ms", "m"], p["ms", "a"]),
        "a": "module a { yang-version 1.1; namespace 'urn:a'; prefix %s;\n" % p["a", "a"],
        "b": "module b { yang-version 1.1; namespace 'urn:b'; prefix %s; import m { prefix %s; } import a { prefix %s; }\n" % (p["b", "b"], p["b", "m"], p["b", "a"]),
    }
    out = {}
    for f in FILES:
        td = "typedef td { type string; default of-%s; }\n" % f if f != "m" else ""
        out[f] = head[f] + td + "".join(g.top[f]) + "".join(body.get(f, ())) + "}\n"
    return out, nodes


def say(v):
    return None if v is None or v is False else str(v)


def compare(nodes, obj, where, res, bad):
    real = list(obj._pyangbind_elements)
    want = [safe(x.name) for x in nodes]
    if sorted(real) != sorted(want):
        bad("nodes", where, "has %s, expected %s" % (sorted(set(real) - set(want)) or "nothing more", sorted(set(want) - set(real)) or "nothing more"))
    if len(set(real)) != len(real):
        bad("nodes", where, "repeated")
    for x in nodes:
        o = getattr(obj, safe(x.name), None)
        if o is None:
            continue
        here = "%s/%s" % (where, x.name)
        res["states"] += 1

        def check(what, got, exp):
            res["transitions"] += 1
            if got != exp:
                bad("%s %s" % (x.kind, what), here, "%s is %r, expected %r" % (what, got, exp))

        kind = "list" if o._is_container == "list" else "container" if o._is_container else "leaf" if o._is_leaf else "leaf-list"
        check("kind", kind, x.kind)
        if kind != x.kind:
            continue
        core.bump(res, kind)
        check("name", o._yang_name, x.name)
        check("namespace", o._namespace, NS[x.ns])
        check("module", o._defining_module, x.ns)
        check("config", bool(o._is_config), x.config)
        check("setter", getattr(type(obj), safe(x.name)).fset is not None, x.config)
        check("cases", tuple(tuple(k) for k in (o._choice or ())), tuple(x.cases))
        check("key leaf", bool(getattr(o, "_is_keyval", False)), bool(x.attrs.get("key")))
        if kind in ("leaf", "leaf-list"):
            check("type", o._yang_type, x.attrs["type"])
            check("default", say(getattr(o, "_default", None)), x.attrs.get("default"))
        elif kind == "container":
            check("presence", bool(o._presence), bool(x.attrs.get("presence")))
            compare(x.kids, o, here, res, bad)
        else:
            check("keys", o._yang_keys, x.attrs["keys"] or "False")
            check("key names", o._keyval, " ".join(safe(k) for k in x.attrs["keys"].split()) if x.attrs["keys"] else False)
            check("order", bool(o._members._user_ordered), bool(x.attrs.get("user")))
            n = len(x.attrs["keys"].split()) if x.attrs["keys"] else 0
            e = o._new_item() if not n else o.add(" ".join(["1"] * n))
            compare(x.kids, e, here + "[]", res, bad)


def odd():
    """label, module name, body, expected nodes: names, texts and values that are awkward in Python"""
    import keyword

    words = keyword.kwlist + keyword.softkwlist + "get elements set add pop insert remove delete append extend clear items keys values update self v load args kwargs t helper path parent".split()
    words += "print exec property object type super list str int float bool dict long decimal Decimal OrderedDict unicode default yang_name min max map id len repr name".split()

    def leaf(n, ty="string", default=None, **kw):
        return E("leaf", n, "m", True, type=ty, default=default, **kw)

    for w in words:
        if w.startswith("_"):
            continue
        yield "word %s" % w, "container %s { leaf %s { type string; default 'd'; } list l { key %s; leaf %s { type string; } } }" % (w, w, w, w), [
            E("container", w, "m", True, [leaf(w, default="d"), E("list", "l", "m", True, [leaf(w, key=True)], keys=w)])
        ]
        yield "word %s at the top" % w, "leaf %s { type string; } leaf-list x-%s { type string; }" % (w, w), [leaf(w), E("leaf-list", "x-" + w, "m", True, type="string")]
    # different paths that are the same as an identifier, at different depths
    for sep in "-._":
        for a, b in ("a%sb/c/d" % sep, "a/b%sc/d"), ("a%sb/c%sd/e" % (sep, sep), "a/b/c/d/e"), ("a/b%sc/d" % sep, "a%sb%sc/d" % (sep, sep)):
            b = b % sep if "%s" in b else b
            if a.split("/")[0] == b.split("/")[0]:
                continue
            text, nodes = "", []
            for n, path in enumerate((a, b)):
                t, x = "leaf of-%d { type string; }" % n, [leaf("of-%d" % n)]
                for part in reversed(path.split("/")):
                    t, x = "container %s { %s }" % (part, t), [E("container", part, "m", True, x)]
                text += t
                nodes += x
            yield "paths %s and %s" % (a, b), text, nodes
    # integers in every base
    for ty in "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64":
        for lex, val in ("0", 0), ("7", 7), ("+7", 7), ("010", 8), ("0x1F", 31), ("017", 15), ("-3", -3), ("-0x1f", -31), ("-012", -10), ("00", 0):
            if val >= 0 or ty[0] == "i":
                yield "%s default %s" % (ty, lex), "leaf x { type %s; default '%s'; } typedef y { type %s; default '%s'; } leaf y { type y; }" % (ty, lex, ty, lex), [leaf("x", ty, str(val)), leaf("y", "y", str(val))]
    # texts that have a meaning in Python
    bits = ["\\", '"', "'", '"""', "'''", "\\N", "\\x", "\\u", "%s", "%", "{0}", "{", "}", "#", "\n", "\t", "\u00e9", "\u20ac"]
    for x in bits:
        for text in (x, "a" + x, x + "a", x + x) if x.strip() else ("a" + x + "a",):
            q = '"%s"' % text.replace("\\", "\\\\").replace('"', '\\"')
            yield "text %r" % text, (
                "leaf d { type string; description %s; default %s; } container c { description %s; presence %s; leaf e { type enumeration { enum %s; enum o; } } }"
                % (q, q, q, q, q)
                + "list l { description %s; key k; leaf k { type string; } } leaf-list ll { type string; description %s; } leaf u { type int8; units %s; }" % (q, q, q)
            ), [
                leaf("d", default=text),
                E("container", "c", "m", True, [leaf("e", "enumeration")], presence=True),
                E("list", "l", "m", True, [leaf("k", key=True)], keys="k"),
                E("leaf-list", "ll", "m", True, type="string"),
                leaf("u", "int8"),
            ]
    for pat in '"""', "'''", "\\\\", "\\.", '[\\"]', "\\d%s", "[']":
        q = '"%s"' % pat.replace("\\", "\\\\").replace('"', '\\"')
        yield "pattern %r" % pat, "leaf p { type string { pattern %s; } } leaf-list q { type string { pattern %s; } }" % (q, q), [leaf("p"), E("leaf-list", "q", "m", True, type="string")]


def explore_odd(item):
    res = core.new_result()
    for label, body, nodes in item:
        t = {"m": "module m { yang-version 1.1; namespace 'urn:m'; prefix m;\n%s\n}" % body}
        for flags in (), ("--use-xpathhelper", "--use-extmethods"):
            try:
                mod = genbind.build(t, flags=("--presence",) + flags)
                root = mod.m()
                root.get()
                root.get(filter=True)
            except Exception as e:
                res["viol"].append(("bindings unusable: %s" % label, "%s: %s" % (label, str(e)[-1500:]), {"yang": t}))
                continue

            def bad(kind, where, text):
                res["viol"].append(("%s: %s" % (kind, label), "%s: %s" % (where, text), {"yang": t}))

            compare(nodes, root, "m", res, bad)
            root.get()
            res["traces"] += 1
    return res


def collide(ctx):
    """sibling nodes whose names are the same in Python cannot both be reached (listed in known_findings.txt)"""
    for label, t in (
        ("names a-b and a.b", {"m": "module m { yang-version 1.1; namespace 'urn:m'; prefix m; leaf a-b { type string; } leaf a.b { type string; } }"}),
        (
            "one name from two modules",
            {
                "m": "module m { yang-version 1.1; namespace 'urn:m'; prefix m; container c { leaf x { type string; } } }",
                "b": "module b { yang-version 1.1; namespace 'urn:b'; prefix b; import m { prefix m; } augment /m:c { leaf x { type uint8; } } }",
            },
        ),
    ):
        root = genbind.build(t).m()
        c = getattr(root, "c", root)
        if len(c._pyangbind_elements) != 2:
            ctx.violation("siblings: %s" % label, "%s: %d of 2 nodes are generated" % (label, len(c._pyangbind_elements)), {"yang": t})


def explore(item):
    items, pfx, naming, flags = item
    res = core.new_result()
    t, nodes = texts(items, pfx, naming)
    if not nodes:
        return res
    try:
        mod = genbind.build(t, main=["m", "b"], flags=("--presence",) + flags)
        root = mod.m()
    except Exception as e:
        if len(items) > 1:
            for k in items[: len(items) // 2], items[len(items) // 2 :]:
                r = explore((k, pfx, naming, flags))
                for key in ("states", "transitions", "traces"):
                    res[key] += r[key]
                res["viol"] += r["viol"]
                if r["viol"]:
                    break
            return res
        res["viol"].append(("bindings unusable", "%s: %s" % (nodes[0].chain, str(e)[-1500:]), {"yang": t}))
        return res
    seen = set()

    def bad(kind, where, text):
        top = where.split("/")[1] if "/" in where else ""
        chain = next((x.chain for x in nodes if x.name == top.replace("[]", "")), "")
        key = "%s: %s" % (kind, chain)
        if key not in seen:
            seen.add(key)
            res["viol"].append((key, "%s: %s (%s prefixes, %s names)" % (where, text, pfx, naming), {"yang": t}))

    compare(nodes, root, "m", res, bad)
    extra = [n for n in list(mod.b()._pyangbind_elements)] if hasattr(mod, "b") else []
    if extra:
        bad("nodes", "b", "has %s, expected none" % extra)
    res["traces"] += len(items)
    return res


def run(ctx):
    chains1 = [c for n in (1, 2) for c in itertools.product(WRAPPERS, repeat=n)]
    chains3 = list(itertools.product(WRAPPERS, repeat=3))
    work = []
    for where in "m", "ms":
        work.append([(c, full, where) for c in chains1])
        work.append([(c, small if ctx.quick else full, where) for c in chains3 if where == "m" or not ctx.quick])
    items = []
    for w in work:
        w = [(k, x) for k, x in enumerate(w)]
        # nodes that end up at the top level have it for themselves
        alone = [[x] for x in w if set(x[1][0]) <= TRANSPARENT]
        w = [x for x in w if not set(x[1][0]) <= TRANSPARENT]
        step = 40 if w and w[0][1][1] is full else 150
        for group in alone + [w[k : k + step] for k in range(0, len(w), step)]:
            items.append((group, "names", "distinct", ()))
            if group[0][1][1] is full or not ctx.quick:
                items.append((group, "others", "distinct", ("--use-xpathhelper",)))
                items.append((group, "others", "same", ()))
    core.pmerge(ctx, explore, items)
    o = list(odd())
    core.pmerge(ctx, explore_odd, [o[k : k + 12] for k in range(0, len(o), 12)])
    collide(ctx)
    ctx.bound("%d modules with names that are words of Python, texts and patterns with quotes and escapes, paths that are written alike, integers in every base" % len(o))
    ctx.bound("%d constructs, every chain of up to 2 around a set of 31 nodes, of 3 around a set of 3%s; top level in the module and in its submodule; 2 arrangements of prefixes; distinct and equal names along the path" % (len(WRAPPERS), "" if ctx.quick else "1"))
