"""S05: a keyed list is an insertion-ordered map whose keys agree with the key leaves."""
from collections import OrderedDict
from decimal import Decimal

from mc import core, tree
from mc.explore import Spec, run_specs
from mc.tree import C, Disabled, LL, Leaf, Lst, Mod, Real, Refuse, Schema, canon_tag, real_tag
from mc.ytypes import Binary, Bits, Bool, Dec, Enum, Int, Reject, Str, Union, derive


class Map:
    """the reference: an ordered map from canonical keys to the value of leaf v"""

    def __init__(self, lst):
        self.lst, self.ents = lst, OrderedDict()

    def key(self, vals):
        out = []
        for n, v in zip(self.lst.keys, vals):
            ty = self.lst.find(n).ty
            try:
                out.append(canon_tag(ty, ty.value(v)))
            except Reject:
                raise Refuse("key")
        return tuple(out)

    def have(self, vals):
        k = self.key(vals)
        if k not in self.ents:
            raise Refuse("absent")
        return k

    def add(self, how, vals):
        k = self.key(vals)
        if k in self.ents:
            raise Refuse("duplicate")
        self.ents[k] = "v" if how == "value" else None

    def delete(self, how, vals):
        del self.ents[self.have(vals)]

    def put(self, how, vals, v):
        """an entry object: an entry of the same key is replaced, where it is"""
        self.ents[self.key(vals)] = v

    def setkey(self, vals, new):
        self.have(vals)
        raise Refuse("key leaf")

    def setv(self, vals, v):
        try:
            self.ents[self.have(vals)] = v
        except Refuse:
            raise Disabled()

    def wipe(self):
        self.ents.clear()

    def extra_keyword(self, vals):
        raise Refuse("not a key")

    def missing_keyword(self, vals):
        raise Refuse("a key is missing")

    def snap(self):
        return tuple(self.ents.items())


class RealList:
    def __init__(self, schema, mod, lst, helper=None):
        self.r = Real(schema, mod, helper)
        self.lst = lst
        self.helper = helper

    @property
    def l(self):
        return self.r.root.c.l

    def kw(self, vals):
        return {tree.safe(n): v for n, v in zip(self.lst.keys, vals)}

    def pos(self, vals):
        """the key as it is in the list"""
        return vals[0] if len(vals) == 1 else " ".join(str(v) for v in vals)

    def item(self, vals, v):
        e = self.l._new_item()
        for n, x in zip(self.lst.keys, vals):
            setattr(e, tree.safe(n), x)
        if v is not None:
            e.v = v
        return e

    def add(self, how, vals):
        if how == "kw":
            e = self.l.add(**self.kw(vals))
        elif how == "value":
            e = self.l.add(_v=self.item(vals, "v"), **self.kw(vals))
        else:
            e = self.l.add(self.pos(vals))
        if not any(e is x for x in self.l.values()):
            raise AssertionError("add returned an object that is not an entry")

    def delete(self, how, vals):
        if how == "kw":
            self.l.delete(**self.kw(vals))
        elif how == "del":
            del self.l[self.pos(vals)]
        else:
            self.l.delete(self.pos(vals))

    def put(self, how, vals, v):
        if how == "append":
            self.l.append(self.item(vals, v))
        else:
            self.l[self.pos(vals)] = self.item(vals, v)

    def setkey(self, vals, new):
        setattr(self.l[self.pos(vals)], tree.safe(self.lst.keys[0]), new)

    def setv(self, vals, v):
        e = self.l[self.pos(vals)]
        if v is None:
            e._unset_v()
        else:
            e.v = v

    def wipe(self):
        self.r.root.c._unset_l()

    def extra_keyword(self, vals):
        self.l.add(zz=1, **self.kw(vals))

    def missing_keyword(self, vals):
        self.l.add(**dict(list(self.kw(vals).items())[:-1], zz=1))

    def entkey(self, e):
        return tuple(real_tag(self.lst.find(n).ty, getattr(e, tree.safe(n))) for n in self.lst.keys)

    def snap(self):
        return tuple((self.entkey(e), str(e.v) if e.v._changed() else None) for e in self.l.values())

    def view(self, filt=True):
        return self.r.view(filt)


class Lists(Spec):
    inputs = ()

    def start(self):
        from mc.explore import built

        helper = None
        if self.schema.xpath:
            from pyangbind.lib.xpathhelper import YANGPathHelper

            helper = YANGPathHelper()
        lst = self.schema.root.find("c").find("l")
        return RealList(self.schema, built(self.schema), lst, helper), Map(lst)

    def check(self, real, model, op, want):
        rs, ms = real.snap(), model.snap()
        if rs != ms:
            return [("entries", "the list holds %s, expected %s" % (rs, ms))]
        l = real.l
        keys = list(l)
        if len(l) != len(ms):
            return [("len", "len() is %d, expected %d" % (len(l), len(ms)))]
        if not (list(l.keys()) == keys == [k for k, _ in l.items()] == [k for k, _ in l.iteritems()] == list(l.get()) == list(l.get(filter=True))) or len(keys) != len(ms):
            return [("iteration", "iteration, keys(), items(), iteritems() and get() disagree")]
        vals = list(l.values())
        if [id(v) for v in vals] != [id(v) for _, v in l.items()] or [id(v) for v in vals] != [id(v) for v in l.itervalues()]:
            return [("iteration", "values(), items() and itervalues() disagree")]
        for k, e in zip(keys, vals):
            if l[k] is not e or k not in l:
                return [("lookup", "the entry of the key %r is not found by it" % (k,))]
            if len(real.lst.keys) > 1 and str(k) != " ".join(str(getattr(e, tree.safe(n))) for n in real.lst.keys):
                if self.canonical_only:
                    return [("key", "the key %r is not that of the key leaves" % (k,))]
        # every spelling of every key of the alphabet
        for v in self.inputs:
            try:
                k = model.key(v)
                here = k in model.ents
            except Refuse:
                k, here = None, False
            if here != (real.pos(v) in l):
                return [("membership", "%r in the list is %s" % (real.pos(v), not here))]
            for how in ("[]", "_item"):
                if how == "_item" and not all(isinstance(x, (str, int)) for x in v):
                    continue
                try:
                    e = l[real.pos(v)] if how == "[]" else l._item(**real.kw(v))
                    got = True
                except KeyError:
                    got = False
                if got != here:
                    return [("lookup", "lookup %s of %r %s" % (how, v, "finds an entry" if got else "finds nothing"))]
                if here and real.entkey(e) != k:
                    return [("lookup", "lookup %s of %r finds the entry %r" % (how, v, real.entkey(e)))]
        return []

    def observe(self, real):
        return (real.snap(), repr(real.view(True)), repr(real.view(False)), repr(list(real.l)))

    def digest(self, real, model):
        return core.h((real.snap(), [repr(k) for k in real.l], model.snap()))

    canonical_only = False


def obs_text(x):
    return repr(x)


def types():
    """(type, spellings of keys: equal ones in a group, refused keys)"""
    u = Union(Int("uint8", "1..9"), Enum("auto"), Str("2"))
    return [
        (Str("1..3"), [["a"], ["b"], ["a b"]], ["waytoolong"]),
        (Str(), [["a"], ["1"], ["it's"], ["A"]], []),
        (Int("int8"), [[1, "1", "+1", "01"], [-2, "-2"], ["0", 0]], [300, "x", None]),
        (Int("uint64"), [["18446744073709551615", 18446744073709551615], [7, "7"]], ["-1"]),
        (Int("uint8", "1..9"), [["3", 3], [9]], [0, "10"]),
        (Enum("on", "off"), [["on"], ["off"]], ["maybe"]),
        (Bool(), [[True, "true"], ["false", False]], ["yes", 2]),
        (Dec(2), [["1.5", Decimal("1.50"), "1.50"], ["0", Decimal("0.00")], ["-1.25"]], ["x"]),
        (u, [[1, "1"], ["auto"], ["zz"]], ["toolong"]),
        (Bits("r", "w"), [["r w", "w r"], ["w"]], ["z"]),
        (Binary(), [["YQ=="], ["YmM="]], []),
        (derive("tk", Int("uint8", "1..5"), Int("uint8", "1..5")), [["2", 2], [5]], [6]),
    ]


def schema(label, keys, xpath, user):
    return Schema(label, Mod("m", C("c", Lst("l", "  ".join(n for n, _ in keys), *[Leaf(n, t) for n, t in keys], Leaf("v", Str("1")), user=user))), xpath=xpath)


def build_ops(inputs, bad, multi):
    ops = []
    first = inputs[0]
    for v in inputs + bad:
        spaced = multi and any(" " in str(x) for x in v)  # a key text that is split elsewhere
        ops += [("delete", "pos", v)] if spaced else [("add", "pos", v), ("delete", "pos", v)]
        if v not in bad:
            ops += [("put", "append", v, "x")] + ([] if spaced else [("put", "setitem", v, None)])
        if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in v):
            ops += [("add", "kw", v), ("delete", "kw", v)]
            if v not in bad:
                ops += [("add", "value", v)]
    for v in (inputs[0], inputs[-1]):
        ops += [("delete", "del", v), ("setkey", v, first[0]), ("setkey", v, inputs[-1][0]), ("setv", v, "y"), ("setv", v, None)]
    ops += [("wipe",), ("missing_keyword", first)]
    return ops


class Seq:
    """entries of a list without keys"""

    def __init__(self):
        self.ents = []

    def new(self):
        if len(self.ents) > 3:
            raise Disabled()
        self.ents.append(None)

    def drop(self, i):
        if i >= len(self.ents):
            raise Disabled()
        del self.ents[i]

    def setv(self, i, v):
        if i >= len(self.ents):
            raise Disabled()
        self.ents[i] = v

    def bogus(self, k):
        raise Refuse("absent")

    def addval(self, v):
        if len(self.ents) > 3:
            raise Disabled()
        self.ents.append(v)

    def snap(self):
        return tuple(self.ents)


class RealSeq(RealList):
    def new(self):
        k = self.l.add()
        if k not in self.l:
            raise AssertionError("add() returned %r, which is not a key" % (k,))

    def at(self, i):
        return list(self.l.keys())[i]

    def drop(self, i):
        self.l.delete(self.at(i))

    def setv(self, i, v):
        self.l[self.at(i)]._set_v(v)

    def bogus(self, k):
        self.l.delete(k)

    def snap(self):
        return tuple(str(e.v) if e.v._changed() else None for e in self.l.values())


class Keyless(Spec):
    disabled_is_clean = True

    def start(self):
        from mc.explore import built

        helper = None
        if self.schema.xpath:
            from pyangbind.lib.xpathhelper import YANGPathHelper

            helper = YANGPathHelper()
        return RealSeq(self.schema, built(self.schema), self.schema.root.find("c").find("l"), helper), Seq()

    def check(self, real, model, op, want):
        if real.snap() != model.snap():
            return [("entries", "the list holds %s, expected %s" % (real.snap(), model.snap()))]
        l = real.l
        if len(l) != len(model.ents) or len(set(l)) != len(l) or list(l) != list(l.keys()):
            return [("keys", "the keys are not distinct, or not one per entry: %s" % list(l))]
        if any(l[k] is not v for k, v in l.items()) or "no such" in l:
            return [("lookup", "an entry is not found by its key")]
        if [str(e["v"]) for e in l.get(filter=True).values() if "v" in e] != [v for v in model.ents if v is not None]:
            return [("view", "get() gives %r" % (l.get(filter=True),))]
        return []

    def observe(self, real):
        return (real.snap(), list(real.l))

    def digest(self, real, model):
        return core.h((real.snap(), model.snap()))


KEYLESS_OPS = [("new",), ("drop", 0), ("drop", 1), ("setv", 0, "a"), ("setv", 1, "b"), ("bogus", "x"), ("setv", 2, "a")]


def spaces(ctx):
    """two entries whose keys differ only in where a space belongs"""
    s = schema("spaces", [("x", Str()), ("y", Str())], False, False)
    from mc.explore import built

    for first, second in ((("a b", "c"), ("a", "b c")), (("a", "b c"), ("a b", "c"))):
        r = RealList(s, built(s), s.root.find("c").find("l"))
        r.l.add(**r.kw(first))
        ctx.transitions += 2
        try:
            r.l.add(**r.kw(second))
            ok = len(r.l) == 2
        except Exception as e:
            ok = False
        if not ok:
            ctx.violation("spaces: %r and %r collide" % (first, second), "two entries with different keys cannot both be in the list", {"yang": s.texts()})


def run(ctx):
    specs = []
    for x in (False, True):
        s = Schema("keyless" + ("/xpath" if x else ""), Mod("m", C("c", Lst("l", None, Leaf("v", Str("1")), config=False))), xpath=x)
        specs.append(Keyless(s.label, s, KEYLESS_OPS, 4 if ctx.quick else 6))
    spaces(ctx)
    for i, (ty, groups, bad) in enumerate(types()):
        inputs = [(v,) for g in groups for v in g]
        bads = [(b,) for b in bad]
        for x in (False, True):
            s = schema("%d %s%s" % (i, ty.text(), "/xpath" if x else ""), [("k", ty)], x, i % 2 == 1)
            specs.append(Lists(s.label, s, build_ops(inputs, bads, False), 2 if ctx.quick else 4, inputs=inputs + bads))
    for i, (keys, inputs, bads) in enumerate(multi()):
        for x in (False, True):
            s = schema("multi %d%s" % (i, "/xpath" if x else ""), keys, x, i % 2 == 0)
            specs.append(Lists(s.label, s, build_ops(inputs, bads, True), 2 if ctx.quick else 4, inputs=inputs + bads))
    run_specs(ctx, specs)


def multi():
    return [
        ([("k1", Str("1..2")), ("k-2", Int("uint8", "1..9"))], [("a", 1), ("a", "1"), ("a", 2), ("b", 1), ("1", 1)], [("a", 10), ("abc", 1)]),
        ([("list", Enum("on", "off")), ("a.b", Dec(1)), ("c", Bool())], [("on", "1.5", "true"), ("on", "2", "true"), ("off", "1.5", "false")], [("no", "1.5", "true"), ("on", "x", "true"), ("on", "1.5", "maybe")]),
        ([("x", Str("1")), ("y", Str("1"))], [("a", "b"), ("b", "a"), ("a", "a")], [("aa", "b")]),
        ([("x", Str("1")), ("y", Str("0..2"))], [("a", "b "), ("a", ""), ("a", "b")], [("a", "b  ")]),
    ]
