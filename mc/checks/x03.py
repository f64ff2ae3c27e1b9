"""X03: references that require an instance take exactly what their target path holds at that moment."""
import re
from decimal import Decimal

from mc.explore import Spec, run_specs
from mc.tree import C, Disabled, LL, Leaf, Lst, Mod, Model, Refuse, Schema, canon_tag, klex, unwrap
from mc.ytypes import Binary, Bits, Bool, Dec, Enum, Int, Leafref, Reject, Str, Typedef, Union


def is_ref(sch):
    ty = unwrap(sch.ty)
    return isinstance(ty, Leafref) or isinstance(ty, Union) and any(isinstance(unwrap(m), UnionRef) for m in ty.members)


class UnionRef(Leafref):
    """a reference within a union: takes what the model says is there now, leaving the rest to the other members"""

    now = ()

    def value(self, v):
        c = super().value(v)
        if canon_tag(self.target, c) not in self.now:
            raise Reject(v)
        return c


class RefModel(Model):
    """resolves reference paths over the model tree, by the rules of XPath, and checks what is assigned"""

    def up(self, chain):
        """the data nodes from the root down to the one that holds the last step of chain"""
        return [cont for cont, _ in chain]

    def instances(self, path, chain, extra=None):
        """canonical tagged values present at a reference path, seen from the node at the end of chain"""
        here = self.up(chain)
        parts = [p for p in re.split(r"/(?![^\[]*\])", path)]
        if parts[0] == "":
            cur, parts = [(self.root,)], parts[1:]
        else:
            cur = [tuple(here) + (None,)]  # the referring leaf itself
        for part in parts:
            nxt = []
            name, _, pred = part.partition("[")
            name = name.split(":")[-1]
            for trail in cur:
                if name == "..":
                    nxt.append(trail[:-1])
                    continue
                k = trail[-1].kids[name]
                if k.sch.kind == "list":
                    nxt += [trail + (e,) for e in k.ents.values() if self.holds(e, pred, chain)]
                else:
                    nxt.append(trail + (k,))
            cur = nxt
        out = []
        for trail in cur:
            n = trail[-1]
            if n.sch.kind == "leaf" and n.v is not None:
                out.append((target(n.sch), n.v[0]))
            elif n.sch.kind == "leaf-list":
                out += [(target(n.sch), v) for v in n.vals]
        return [canon_tag(ty, v) for ty, v in out]

    def holds(self, entry, pred, chain):
        for key, expr in re.findall(r"([\w:.-]+)\s*=\s*([^\]]+)\]", pred):
            m = re.match(r"current\(\)/\.\./([\w:-]+)", expr)
            other = chain[-1][0].kids[m.group(1).split(":")[-1]]
            mine = entry.kids[key.split(":")[-1]]
            if other.v is None or canon_tag(target(mine.sch), mine.v[0]) != canon_tag(target(other.sch), other.v[0]):
                return False
        return True

    def permit(self, sch, chain, v):
        ty = unwrap(sch.ty)
        if isinstance(ty, Union):
            for m in ty.members:
                m = unwrap(m)
                if isinstance(m, UnionRef):
                    m.now = self.instances(m.path, chain)
            return
        try:
            c = canon_tag(ty.target, ty.value(v))
        except Reject:
            raise Refuse("value")
        if ty.require and c not in self.instances(ty.path, chain):
            raise Refuse("no such instance")

    def set(self, path, v, internal=False):
        chain = self.chain(path)
        sch = chain[-1][0].kids[chain[-1][1]].sch
        if is_ref(sch):
            self.permit(sch, chain, v)
        super().set(path, v, internal)

    def ll(self, path, op, *a):
        chain, n = self._ll(path)
        if is_ref(n.sch):
            for v in a[0] if op in ("assign", "extend") else a[-1:] if op in ("append", "insert", "setitem") else ():
                self.permit(n.sch, chain, v)
            if op == "remove" and isinstance(unwrap(n.sch.ty), Union):  # looked up among the entries
                for m in unwrap(n.sch.ty).members:
                    if isinstance(unwrap(m), UnionRef):
                        unwrap(m).now = [canon_tag(n.sch.ty, v) for v in n.vals]
        super().ll(path, op, *a)

    def add(self, path, keyvals):
        chain = self.chain(path)
        cont, name = chain[-1]
        lst = cont.kids[name]
        from mc.tree import MC

        for k in lst.sch.keys:
            leaf = lst.sch.find(k)
            if is_ref(leaf):
                self.permit(leaf, chain + [(MC(lst.sch), k)], keyvals[k])
        return super().add(path, keyvals)


def target(sch):
    ty = unwrap(sch.ty)
    while isinstance(ty, Leafref):
        ty = unwrap(ty.target)
    return ty


class AliasModel(Model):
    """a reference to a leaf that is not in a list stands for that leaf"""

    names = ("p", "q")

    def set(self, path, v, internal=False):
        if path[-1] in self.names:
            super().set(("s", "x"), v)
        super().set(path, v, internal)
        self.sync()

    def unset(self, path):
        if path in (("s", "x"), ("s",)) and any(self.root.kids["r"].kids[n].v for n in self.names):
            raise Disabled()  # a reference to nothing: no value is asserted
        super().unset(path)

    def sync(self):
        x = self.root.kids["s"].kids["x"]
        for n in self.names:
            r = self.root.kids["r"].kids[n]
            if r.v is not None:
                r.v = x.v


class Refs(Spec):
    prelude = ()
    model = RefModel

    def start(self):
        real, _ = super().start()
        model = self.model(self.schema)
        for op in self.prelude:
            self.apply(real, model, op, check=False)
        return real, model

    def extra(self, real, model, op):
        """what a reference shows, by every way of reading it"""
        return self.shown(self.schema.root, real.root, model.root, "")

    def shown(self, sch, o, m, where):
        out = []
        for k in sch.kids:
            r, n = getattr(o, k.py), m.kids[k.name]
            if k.kind == "leaf" and is_ref(k) and n.v is not None and hasattr(r, "_get"):
                want = unwrap(k.ty).lex(n.v[0])
                textual = isinstance(target(k), (Str, Enum, Int))
                for how, got in (("str()", str(r)), ("_get()", str(r._get()))):
                    if textual and got != want:
                        out.append(("reading", "%s of the reference %s/%s gives %r, expected %r" % (how, where, k.name, got, want)))
            elif k.kind == "container":
                out += self.shown(k, r, n, where + "/" + k.name)
            elif k.kind == "list":
                for t in list(r):
                    if str(t) in n.ents:
                        out += self.shown(k, r[t], n.ents[str(t)], where + "/" + k.name)
        return out


def ref(path, ty, require=True):
    return Leafref(path, ty, require)


def direct():
    """targets in lists, nested lists and leaf-lists, by absolute, prefixed and relative paths"""
    e = Enum("on", "off")
    return Schema(
        "direct",
        Mod(
            "m",
            C("t", LL("ll", Int("uint8")), Lst("l", "k", Leaf("k", Str()), Lst("n", "j", Leaf("j", e)), LL("z", Str()))),
            C(
                "r",
                Leaf("abs", ref("/m:t/m:l/m:k", Str())),
                Leaf("rel", ref("../../t/l/k", Str())),
                Leaf("ll", ref("/t/ll", Int("uint8"))),
                Leaf("deep", ref("/t/l/n/j", e)),
                Leaf("deepll", ref("/t/l/z", Str())),
                Leaf("free", ref("/t/l/k", Str(), False)),
                LL("many", ref("/t/l/k", Str())),
            ),
        ),
        xpath=True,
    )


DIRECT_OPS = (
    [("add", ("t", "l"), {"k": k}) for k in ("a", "b", "it's \"x\"")]
    + [("delete", ("t", "l"), k) for k in ("a", "b")]
    + [("unset", ("t", "l")), ("unset", ("t",))]
    + [("ll", ("t", "ll"), "append", v) for v in (0, 5)]
    + [("ll", ("t", "ll"), "assign", [7, 5]), ("ll", ("t", "ll"), "remove", 5), ("ll", ("t", "ll"), "pop", 0), ("unset", ("t", "ll"))]
    + [("add", ("t", ("l", k), "n"), {"j": j}) for k, j in (("a", "on"), ("b", "off"))]
    + [("ll", ("t", ("l", k), "z"), "append", j) for k, j in (("a", "x"), ("b", "y"), ("b", "x"))]
    + [("set", ("r", n), v) for n in ("abs", "rel") for v in ("a", "b", "it's \"x\"", "", "['a']")]
    + [("set", ("r", "ll"), v) for v in (5, "5", 0, 7)]
    + [("set", ("r", "deep"), v) for v in ("on", "off")]
    + [("set", ("r", "deepll"), v) for v in ("x", "y", "['x']")]
    + [("set", ("r", "free"), "b"), ("set", ("r", "free"), "zz"), ("unset", ("r", "abs")), ("unset", ("r",))]
    + [("ll", ("r", "many"), "append", v) for v in ("a", "b")]
    + [("ll", ("r", "many"), "assign", ["a", "b"]), ("ll", ("r", "many"), "insert", 0, "b"), ("ll", ("r", "many"), "remove", "a"), ("ll", ("r", "many"), "pop", 0)]
)


def chained():
    """references that depend on each other: predicates with current(), references to references, keys that are references"""
    d = Dec(1)
    a = ref("/m:two/m:a", Str())
    return Schema(
        "chained",
        Mod(
            "m",
            Lst("two", "a b", Leaf("a", Str()), Leaf("b", d)),
            Lst("own", "k", Leaf("k", ref("../../two/a", Str())), Leaf("twin", ref("../../own/k", Str()))),
            C(
                "r",
                Leaf("a", a),
                Leaf("b", ref("/two[a=current()/../a]/b", d)),
                Leaf("bb", ref("/m:two[m:a=current()/../m:a]/m:b", d)),
                Leaf("o", Typedef("t-own", ref("/own/k", Str()), ref("/own/k", Str()))),
                Lst("in", "i", Leaf("i", Int("uint8")), Leaf("sel", ref("../../../two/a", Str())), Leaf("val", ref("/two[a=current()/../sel]/b", d))),
            ),
        ),
        xpath=True,
    )


CHAINED_OPS = (
    [("add", ("two",), {"a": a, "b": b}) for a, b in (("x", "1.0"), ("x", "2.5"), ("y", "2.5"))]
    + [("delete", ("two",), "x 1.0"), ("delete", ("two",), "y 2.5"), ("unset", ("two",))]
    + [("add", ("own",), {"k": k}) for k in ("x", "y", "")]
    + [("delete", ("own",), "x")]
    + [("set", ("own", ("own", "x"), "twin")[1:], v) for v in ("x", "y")]
    + [("set", ("r", "a"), v) for v in ("x", "y", "q")]
    + [("unset", ("r", "a"))]
    + [("set", ("r", "b"), v) for v in ("1.0", "2.5")]
    + [("set", ("r", "bb"), "2.5")]
    + [("set", ("r", "o"), v) for v in ("x", "y")]
    + [("add", ("r", "in"), {"i": 1}), ("add", ("r", "in"), {"i": 2})]
    + [("set", ("r", ("in", "1"), "sel"), v) for v in ("x", "y")]
    + [("set", ("r", ("in", "1"), "val"), v) for v in ("1.0", "2.5")]
    + [("set", ("r", ("in", "2"), "val"), "2.5")]
)


def unions():
    """references in unions, written in place and through typedefs"""
    def member(path, t, name=None):
        r = UnionRef(path, t)
        return Typedef(name, r, r) if name else r

    i, e = Int("uint8"), Enum("auto")
    u = Union(member("/t/l/k", Str()), e)
    v = Union(member("../../t/e/n", i, "ref-t"), e)
    w = Union(member("/t/l/k", Str()), member("/m:t/m:e/m:n", i), e)
    return Schema(
        "unions",
        Mod(
            "m",
            C("t", Lst("l", "k", Leaf("k", Str())), Lst("e", "n", Leaf("n", i), Leaf("w", Typedef("td-w", w, w)))),
            C("r", Leaf("u", u), Leaf("v", Typedef("td-v", v, v)), LL("m", Union(member("/t/l/k", Str()), e))),
        ),
        xpath=True,
    )


UNION_OPS = (
    [("add", ("t", "l"), {"k": k}) for k in ("a", "auto", "5")]
    + [("delete", ("t", "l"), k) for k in ("a", "auto")]
    + [("add", ("t", "e"), {"n": 5}), ("add", ("t", "e"), {"n": 6}), ("delete", ("t", "e"), "5")]
    + [("set", ("r", "u"), v) for v in ("a", "auto", "5", "zz")]
    + [("set", ("r", "v"), v) for v in (5, "6", "auto", "a")]
    + [("set", ("t", ("e", "5"), "w"), v) for v in ("a", 6, "auto", "5")]
    + [("ll", ("r", "m"), "append", v) for v in ("a", "auto", "zz")]
    + [("ll", ("r", "m"), "remove", v) for v in ("a",)]
    + [("ll", ("r", "m"), "assign", ["auto", "a"]), ("unset", ("r", "u"))]
)


def alias():
    i = Int("uint8", "1..200")
    return Schema("alias", Mod("m", C("s", Leaf("x", i), Leaf("y", i)), C("r", Leaf("p", ref("/m:s/m:x", i)), Leaf("q", ref("../../s/x", i)))), xpath=True)


ALIAS_OPS = [("set", p, v) for p in (("s", "x"), ("r", "p"), ("r", "q")) for v in (5, "7", 201, "z")] + [("unset", p) for p in (("s", "x"), ("r", "p"), ("r", "q"), ("r",), ("s",))] + [("set", ("s", "y"), 9)]

TYPES = {
    "bo": (Bool(), [True, False, "true", "false"]),
    "bi": (Bits("r", "w"), ["r w", "w r", "r"]),
    "by": (Binary(), ["YWI=", b"ab", "AP8=", b"\x00\xff"]),
    "de": (Dec(2), ["1.50", 1.5, "2.00", Decimal("2")]),
    "li": (Int("int64"), ["5", 5, 0]),
    "un": (Union(Int("uint8"), Enum("auto")), ["auto", 5, "5"]),
    "en": (Enum("on", "off"), ["on", "off"]),
}


def typed():
    """targets of every kind of type, referred to in every spelling"""
    n = TYPES.items()
    return Schema(
        "typed",
        Mod(
            "m",
            C("t", *[LL("l-" + k, t) for k, (t, _) in n], *[Lst(k, "k", Leaf("k", t)) for k, (t, _) in n]),
            C(
                "r",
                *[Leaf("l-" + k, ref("/t/l-" + k, t)) for k, (t, _) in n],
                *[Leaf("k-" + k, ref("/t/%s/k" % k, t)) for k, (t, _) in n],
                *[LL("m-" + k, ref("/t/%s/k" % k, t)) for k, (t, _) in n],
                *[Leaf("f-" + k, ref("/t/l-" + k, t, False)) for k, (t, _) in n],
            ),
        ),
        xpath=True,
    )


def typed_ops(k):
    t, vals = TYPES[k]
    first = [v for i, v in enumerate(vals) if t.value(v) not in [t.value(w) for w in vals[:i]]]
    out = [("ll", ("t", "l-" + k), "append", v) for v in vals] + [("ll", ("t", "l-" + k), "remove", v) for v in first[:1]]
    out += [("add", ("t", k), {"k": v}) for v in first] + [("unset", ("t", k))]
    out += [("set", ("r", p + k), v) for v in vals for p in ("l-", "k-")] + [("set", ("r", "f-" + k), v) for v in first]
    out += [("ll", ("r", "m-" + k), o, v) for o in ("append", "remove") for v in vals] + [("ll", ("r", "m-" + k), "assign", vals)]
    return out


def run(ctx):
    depth = 4 if ctx.quick else 5
    flags = {"changed": False, "present": False}
    full = [("add", ("t", "l"), {"k": "a"}), ("add", ("t", "l"), {"k": "b"}), ("ll", ("t", ("l", "a"), "z"), "append", "x"), ("ll", ("t", "ll"), "append", 5), ("set", ("r", "abs"), "b")]
    both = [("add", ("two",), {"a": "x", "b": "1.0"}), ("add", ("two",), {"a": "y", "b": "2.5"}), ("add", ("own",), {"k": "x"}), ("add", ("r", "in"), {"i": 1})]
    specs = [
        Refs("direct", direct(), DIRECT_OPS, depth, masks=flags),
        Refs("direct from a filled tree", direct(), DIRECT_OPS, depth - 1, masks=flags, prelude=full),
        Refs("chained", chained(), CHAINED_OPS, depth, masks=flags),
        Refs("chained from a filled tree", chained(), CHAINED_OPS, depth, masks=flags, prelude=both),
    ]
    specs.append(Refs("alias", alias(), ALIAS_OPS, depth + 2, masks=flags, model=AliasModel))
    specs.append(Refs("unions", unions(), UNION_OPS, depth, masks=flags))
    s = typed()
    specs += [Refs("typed " + k, s, typed_ops(k), depth, masks=flags) for k in TYPES]
    run_specs(ctx, specs)
