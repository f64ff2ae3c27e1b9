"""Schemas, a reference model of a YANG data tree (RFC 7950), and the correspondence with pyangbind objects.

snapshots: both sides render their whole observable state in one nested-tuple form, so conformance is equality
  leaf       ('leaf', set?, value)
  leaf-list  ('ll', changed?, (values...))
  list       ('list', changed?, ((key, entry), ...))  in order
  container  ('c', changed?, present?, ((name, node), ...))
"""

from decimal import Decimal

from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, IdRef, Int, Leafref, Reject, Str, Typedef, Union

ERRORS = (ValueError, KeyError, AttributeError, TypeError, IndexError)


def unwrap(ty):
    while isinstance(ty, Typedef):
        ty = ty.eff
    return ty


# ---- schema -----------------------------------------------------------------------------------
class Node:
    mod = None

    def __init__(self, name, config=None):
        self.name, self.config = name, config
        self.py = safe(name)
        self.choices = ()  # ((choice name, case name), ...) outermost first, relative to the data parent
        self.parent = None

    def data_children(self):
        return []

    @property
    def is_config(self):
        n = self
        while n is not None:
            if n.config is False:
                return False
            n = n.parent
        return True

    def find(self, name):
        for k in self.kids:
            if k.name == name:
                return k
        raise KeyError(name)

    def cfgtext(self):
        return "" if self.config is None else " config %s;" % ("true" if self.config else "false")


RESERVED = set(
    "list str int global decimal float as if else elif map set class from import pass return is exec pop insert remove add delete local get default"
    " yang_name def print del break continue raise in assert while for try finally with except lambda or and not yield property min max async await nonlocal None True False append extend OrderedDict".split()
)


def safe(n):
    """the library's Python spelling of a YANG name"""
    s = n.replace("-", "_").replace(".", "_")
    return s + "_" if s in RESERVED else s


class C(Node):
    kind = "container"

    def __init__(self, name, *children, presence=False, config=None):
        super().__init__(name, config)
        self.children, self.presence = list(children), presence
        self.keys = ()

    def text(self):
        return "container %s {%s%s\n%s}\n" % (self.name, ' presence "p";' if self.presence else "", self.cfgtext(), "".join(c.text() for c in self.children))


class Lst(Node):
    kind = "list"

    def __init__(self, name, keys, *children, user=False, config=None):
        super().__init__(name, config)
        self.keys, self.keytext = tuple(keys.split()) if keys else (), keys
        self.children, self.user = list(children), user
        self.presence = False

    def text(self):
        return "list %s {%s%s%s\n%s}\n" % (
            self.name,
            ' key "%s";' % self.keytext if self.keys else "",
            " ordered-by user;" if self.user else "",
            self.cfgtext(),
            "".join(c.text() for c in self.children),
        )


class Leaf(Node):
    kind = "leaf"

    def __init__(self, name, ty, default=None, config=None):
        super().__init__(name, config)
        self.ty, self.default = ty, default

    def text(self):
        return "leaf %s { %s%s%s }\n" % (self.name, self.ty.text(), "" if self.default is None else ' default "%s";' % self.default.replace("\\", "\\\\").replace('"', '\\"'), self.cfgtext())


class LL(Node):
    kind = "leaf-list"

    def __init__(self, name, ty, user=False, config=None):
        super().__init__(name, config)
        self.ty, self.user = ty, user

    def text(self):
        return "leaf-list %s { %s%s%s }\n" % (self.name, self.ty.text(), " ordered-by user;" if self.user else "", self.cfgtext())


class Case:
    def __init__(self, name, *children):
        self.name, self.children = name, list(children)

    def text(self):
        return "case %s {\n%s}\n" % (self.name, "".join(c.text() for c in self.children))


class Ch:
    """choice; children are Case objects, or nodes (shorthand cases)"""

    def __init__(self, name, *cases, config=None):
        self.name, self.config = name, config
        self.cases = list(cases)

    def text(self):
        return "choice %s {%s\n%s}\n" % (self.name, "" if self.config is None else " config %s;" % str(self.config).lower(), "".join(c.text() for c in self.cases))


class Mod:
    def __init__(self, name, *children, prefix=None, imports=(), augments=(), body="", ver="1.1"):
        self.name, self.children, self.prefix = name, list(children), prefix or name
        self.ns = "urn:" + name
        self.imports, self.augments, self.body, self.ver = imports, augments, body, ver

    def text(self):
        out = "module %s { yang-version %s; namespace '%s'; prefix %s;\n" % (self.name, self.ver, self.ns, self.prefix)
        for i in self.imports:
            out += "import %s { prefix %s; }\n" % ((i, i) if isinstance(i, str) else i)
        tds = []
        for leaf in all_leaves(self.children + [c for _, cs in self.augments for c in cs]):
            for d in leaf.ty.decls():
                if d not in tds:
                    tds.append(d)
        out += "\n".join(tds) + "\n" + self.body + "\n"
        out += "".join(c.text() for c in self.children)
        for path, cs in self.augments:
            out += "augment '%s' {\n%s}\n" % (path, "".join(c.text() for c in cs))
        return out + "}\n"


def all_leaves(children):
    for c in children:
        if isinstance(c, (Leaf, LL)):
            yield c
        elif isinstance(c, Ch):
            yield from all_leaves(c.cases)
        else:
            yield from all_leaves(c.children)


class Schema:
    """modules; `main` is the one whose root object is explored (augments from others included)"""

    def __init__(self, label, *mods, flags=("--presence",), xpath=False):
        self.label, self.mods = label, mods
        self.flags = list(flags) + (["--use-xpathhelper"] if xpath else [])
        self.xpath = xpath
        main = mods[0]
        self.main = main
        self.root = C(main.name, *main.children)
        self.root.mod = main
        self._link(self.root, main)
        for m in mods:
            for path, cs in m.augments:
                t, chain, pending = self.root, (), None  # data node, (choice, case) pairs below it, a choice without its case
                for part in path.strip("/").split("/"):
                    n = part.split(":")[-1]
                    if pending is not None:
                        chain, pending = chain + ((pending, n),), None
                        continue
                    data = [k for k in t.kids if k.name == n and k.choices == chain]
                    if data:
                        t, chain = data[0], ()
                    else:
                        pending = n
                cont = C("x", Ch(pending, *cs) if pending is not None else Ch("x", Case("x", *cs)))
                self._link(cont, m)
                for k in cont.kids:
                    k.choices = chain + (k.choices if pending is not None else k.choices[1:])
                    k.parent = t
                    t.kids.append(k)

    def _link(self, node, mod):
        node.kids = []

        def add(children, chain, cfg):
            for c in children:
                if isinstance(c, Ch):
                    for cs in c.cases:
                        kids = cs.children if isinstance(cs, Case) else [cs]
                        add(kids, chain + ((c.name, cs.name),), c.config if c.config is not None else cfg)
                else:
                    c.choices, c.parent, c.mod = chain, node, mod
                    if cfg is False and c.config is None:
                        c.config = False
                        c.inherited = True
                    node.kids.append(c)
                    if c.kind in ("container", "list"):
                        self._link(c, mod)

        add(node.children, (), None)

    def texts(self):
        return {m.name: m.text() for m in self.mods}

    def build(self, flags=None):
        from mc import genbind

        return genbind.build(self.texts(), flags=self.flags if flags is None else flags)

    def new(self, mod, helper=None):
        cls = getattr(mod, safe(self.main.name))
        return cls(path_helper=helper) if helper is not None else cls()


# ---- canonical values ---------------------------------------------------------------------------
def canon_tag(ty, c):
    """model value -> comparable value"""
    ty = unwrap(ty)
    if isinstance(ty, Union):
        return canon_tag(ty.members[c[0]], c[1])
    if isinstance(ty, Leafref):
        return canon_tag(ty.target, c)
    if isinstance(ty, Int):
        return ("i", c)
    if isinstance(ty, (Bool, Empty)):
        return ("b", c)
    if isinstance(ty, Dec):
        return ("d", str(c + 0) if not c.is_zero() else "0")
    if isinstance(ty, Bits):
        return ("t", " ".join(c))
    if isinstance(ty, Binary):
        return ("y", c)
    return ("s", c)


def real_tag(ty, o):
    """value held by a pyangbind object -> comparable value, by what the object is"""
    ty = unwrap(ty)
    if isinstance(ty, Leafref):
        if hasattr(o, "_get"):
            o = o._get()
        if isinstance(o, str) and not isinstance(unwrap(ty.target), (Str, Enum, IdRef)):
            try:  # a reference may hold the referred value's lexical form
                return canon_tag(ty.target, ty.target.value(str(o)))
            except Reject:
                pass
        return real_tag(ty.target, o)
    if hasattr(o, "_get") and hasattr(o, "_referenced_path"):
        o = o._get()
    if any(k.__name__ == "YANGBool" for k in type(o).__mro__) or isinstance(o, bool):
        return ("b", bool(o))
    if isinstance(o, int):
        return ("i", int(o))
    if isinstance(o, Decimal):
        d = Decimal(str(Decimal(o)))
        if isinstance(ty, Dec):
            q = d.quantize(Decimal(1).scaleb(-ty.fd)) if d.is_finite() else d
            d = q if q == d else d
        return ("d", str(d) if not d.is_zero() else "0")
    if isinstance(o, (bytes, bytearray)):
        return ("y", bytes(bytearray(o)))
    if isinstance(o, set):
        return ("t", str(o))
    if isinstance(o, str):
        s = str(o)
        if isinstance(ty, IdRef):
            s = s.split(":")[-1]
        return ("s", s)
    return ("?", repr(o))


# ---- the reference model ---------------------------------------------------------------------------
class MLeaf:
    def __init__(self, sch):
        self.sch, self.v = sch, None

    def is_set(self):
        return self.v is not None

    def snap(self):
        return ("leaf", self.v is not None, None if self.v is None else canon_tag(self.sch.ty, self.v[0]))


class MLL:
    def __init__(self, sch):
        self.sch, self.vals, self.touched = sch, [], False

    def is_set(self):
        return bool(self.vals)

    def snap(self):
        return ("ll", self.touched, tuple(canon_tag(self.sch.ty, v) for v in self.vals))


class MList:
    def __init__(self, sch):
        self.sch, self.ents, self.touched = sch, {}, False  # key text -> MC

    def is_set(self):
        return bool(self.ents)

    def snap(self):
        return ("list", self.touched, tuple((k, e.snap()) for k, e in self.ents.items()))


class MC:
    def __init__(self, sch):
        self.sch, self.touched, self.present = sch, False, False
        self.kids = {k.name: fresh(k) for k in sch.kids}

    def is_set(self):
        return self.present or any(k.is_set() for k in self.kids.values())

    def snap(self):
        p = self.present if self.sch.kind == "container" and self.sch.presence else None
        return ("c", self.touched, p, tuple((n, k.snap()) for n, k in self.kids.items()))


def fresh(sch):
    return {"leaf": MLeaf, "leaf-list": MLL, "list": MList, "container": MC}[sch.kind](sch)


class Refuse(Exception):
    """the model expects the operation to be refused"""


class Disabled(Exception):
    """the operation has no meaning in this state"""


class Model:
    def __init__(self, schema):
        self.schema = schema
        self.root = MC(schema.root)

    def snap(self):
        return self.root.snap()

    def chain(self, path):
        """[(MC, step)...] from the root to the container holding the last step"""
        cur, out = self.root, []
        for i, step in enumerate(path):
            out.append((cur, step))
            if i == len(path) - 1:
                break
            if isinstance(step, tuple):
                lst = cur.kids[step[0]]
                if step[1] not in lst.ents:
                    raise Disabled()
                cur = lst.ents[step[1]]
            else:
                cur = cur.kids[step]
        return out

    def touch(self, chain):
        """something at chain[-1] was set: mark ancestors, select cases"""
        for cont, step in reversed(chain):
            name = step[0] if isinstance(step, tuple) else step
            sch = cont.kids[name].sch
            for k in cont.sch.kids:
                if other_case(k.choices, sch.choices):
                    cont.kids[k.name] = fresh(k)
            cont.touched = True
            if cont.sch.kind == "container" and cont.sch.presence:
                cont.present = True

    def node(self, path):
        cont, step = self.chain(path)[-1]
        if isinstance(step, tuple):
            if step[1] not in cont.kids[step[0]].ents:
                raise Disabled()
            return cont.kids[step[0]].ents[step[1]]
        return cont.kids[step]

    # operations ----------------------------------------------------------------------------------
    def set(self, path, v, internal=False):
        chain = self.chain(path)
        cont, name = chain[-1]
        sch = cont.kids[name].sch
        if not sch.is_config and not internal:
            raise Refuse("read-only")
        if cont.sch.kind == "list" and name in cont.sch.keys:
            raise Refuse("key")
        try:
            c = sch.ty.value(v)
        except Reject:
            raise Refuse("value")
        self.touch(chain)
        cont.kids[name].v = (c,)

    def unset(self, path):
        cont, name = self.chain(path)[-1]
        cont.kids[name] = fresh(cont.kids[name].sch)

    def _ll(self, path):
        chain = self.chain(path)
        cont, name = chain[-1]
        return chain, cont.kids[name]

    def ll(self, path, op, *a):
        """operations of a leaf-list; unique entries when configuration"""
        chain, n = self._ll(path)
        ty = n.sch.ty

        def val(v):
            try:
                return ty.value(v)
            except Reject:
                raise Refuse("value")

        vals = list(n.vals)
        tagged = [canon_tag(ty, v) for v in vals]

        def has(c):
            return canon_tag(ty, c) in tagged

        if op == "assign":
            out, seen = [], set()
            for v in a[0]:
                c = val(v)
                if canon_tag(ty, c) not in seen:
                    seen.add(canon_tag(ty, c))
                    out.append(c)
            new = out
        elif op == "append":
            c = val(a[0])
            new = vals if has(c) else vals + [c]
        elif op == "extend":
            new = list(vals)
            seen = set(tagged)
            for v in a[0]:
                c = val(v)
                if canon_tag(ty, c) not in seen:
                    seen.add(canon_tag(ty, c))
                    new.append(c)
        elif op in ("insert", "setitem"):  # assigning at an index inserts there (documented by the test suite)
            c = val(a[1])
            if has(c):
                raise Refuse("dup")
            new = list(vals)
            new.insert(a[0], c)
        elif op in ("delitem", "pop"):
            if not -len(vals) <= a[0] < len(vals):
                raise Refuse("index")
            new = list(vals)
            del new[a[0]]
        elif op == "remove":
            c = val(a[0])
            if not has(c):
                raise Refuse("absent")
            i = tagged.index(canon_tag(ty, c))
            new = vals[:i] + vals[i + 1 :]
        elif op == "clear":
            if not vals:
                raise Disabled()
            new = []
        else:
            raise ValueError(op)
        self.touch(chain)
        cont, name = chain[-1]
        m = cont.kids[name]
        m.vals, m.touched = new, True

    def bits(self, path, op, *a):
        """in-place modification of a leaf of type bits"""
        chain = self.chain(path)
        cont, name = chain[-1]
        leaf = cont.kids[name]
        ty = unwrap(leaf.sch.ty)
        cur = set(leaf.v[0]) if leaf.v else set()
        arg = set(a[0].split()) if a else set()
        known = arg <= set(ty.pos)
        if op in ("add", "discard"):
            if not known:
                raise Refuse("value")
            new = cur | arg if op == "add" else cur - arg
        elif op == "remove":
            if not arg <= cur:
                raise Refuse("absent")
            new = cur - arg
        elif op == "pop":
            if len(cur) > 1:
                raise Disabled()
            if not cur:
                raise Refuse("empty")
            new = set()
        elif op == "clear":
            new = set()
        elif op in ("update", "|="):
            if not known:
                raise Refuse("value")
            new = cur | arg
        elif op == "-=":
            new = cur - arg
        elif op == "&=":
            new = cur & arg
        elif op == "^=":
            if not known:
                raise Refuse("value")
            new = cur ^ arg
        self.touch(chain)
        cont.kids[name].v = (tuple(sorted(new, key=lambda b: ty.pos[b])),)

    def keytext(self, sch, keyvals):
        """keyvals: {key name: input} -> (text, {key: canonical}) or Refuse"""
        out, txt = {}, []
        for k in sch.keys:
            leaf = sch.find(k)
            try:
                out[k] = leaf.ty.value(keyvals[k])
            except Reject:
                raise Refuse("key value")
            txt.append(klex(leaf.ty, out[k]))
        return " ".join(txt), out

    def add(self, path, keyvals):
        chain = self.chain(path)
        cont, name = chain[-1]
        sch = cont.kids[name].sch
        text, canon = self.keytext(sch, keyvals)
        if not sch.keys:
            text = "#%d" % len(cont.kids[name].ents)
        if text in cont.kids[name].ents:
            raise Refuse("duplicate")
        self.touch(chain)
        lst = cont.kids[name]
        e = MC(sch)
        e.touched = True
        for k, c in canon.items():
            e.kids[k].v = (c,)
        lst.ents[text] = e
        lst.touched = True
        return text

    def delete(self, path, text):
        cont, name = self.chain(path)[-1]
        lst = cont.kids[name]
        if text not in lst.ents:
            raise Refuse("absent")
        del lst.ents[text]
        if not lst.sch.keys:
            lst.ents = {"#%d" % i: e for i, e in enumerate(lst.ents.values())}

    def presence(self, path):
        n = self.node(path)
        self.touch(self.chain(path))
        n = self.node(path)
        n.present = n.touched = True

    # views ---------------------------------------------------------------------------------------
    def view(self, n=None, filt=True):
        """the expected get() document, values in comparable form"""
        n = n or self.root
        out = {}
        for name, k in n.kids.items():
            s = k.sch
            if s.kind == "leaf":
                if k.v is not None:
                    out[name] = canon_tag(s.ty, k.v[0])
                elif not filt:
                    d = leaf_default(s)
                    out[name] = ("unset",) if d is None else canon_tag(s.ty, d)
            elif s.kind == "leaf-list":
                if k.vals or not filt:
                    out[name] = tuple(canon_tag(s.ty, v) for v in k.vals)
            elif s.kind == "list":
                if k.ents or not filt:
                    out[name] = [(t, self.view(e, filt)) for t, e in k.ents.items()]
            else:
                v = self.view(k, filt)
                if v or not filt or (s.presence and k.present):
                    out[name] = v
        return out


def other_case(a, b):
    """do two choice chains select different cases of a common choice?"""
    for (c1, s1), (c2, s2) in zip(a, b):
        if c1 != c2:
            return False
        if s1 != s2:
            return True
    return False


def klex(ty, c):
    """how a key value is written in the entry's key"""
    ty = unwrap(ty)
    if isinstance(ty, Union):
        return klex(ty.members[c[0]], c[1])
    if isinstance(ty, Bool):
        return "True" if c else "False"
    return ty.lex(c)


def leaf_default(s):
    """canonical default of a leaf: its own, else that of the nearest typedef"""
    t = s.ty
    d = s.default
    while d is None and isinstance(t, Typedef):
        d = t.default
        t = t.inner
    return None if d is None else s.ty.value(d)


# ---- the real side -----------------------------------------------------------------------------------
def label(sch, i, key):
    """how the entry of a list is referred to: by its key, or by its position when there are no keys"""
    return str(key) if sch.keys else "#%d" % i


def rsnap(sch, o):
    """snapshot of a real container/entry"""
    kids = []
    for k in sch.kids:
        r = getattr(o, k.py)
        if k.kind == "leaf":
            ch = r._changed()
            kids.append((k.name, ("leaf", bool(ch), real_tag(k.ty, r) if ch else None)))
        elif k.kind == "leaf-list":
            kids.append((k.name, ("ll", bool(r._changed()), tuple(real_tag(k.ty, v) for v in r))))
        elif k.kind == "list":
            kids.append((k.name, ("list", bool(r._changed()), tuple((label(k, i, t), rsnap(k, r[t])) for i, t in enumerate(list(r))))))
        else:
            kids.append((k.name, rsnap(k, r)))
    p = None
    if sch.kind == "container" and sch.presence:
        p = o._present()
    ch = o._changed() if hasattr(o, "_changed") else None
    return ("c", ch, p, tuple(kids))


def rview(sch, d):
    """real get() document -> comparable form"""
    out = {}
    for key, v in d.items():
        try:
            k = sch.find(key)
        except KeyError:
            out[key] = ("alien", repr(v)[:60])
            continue
        if k.kind == "leaf":
            if hasattr(v, "_changed") and not v._changed() and (v._default is False or v._default is None):
                out[key] = ("unset",)
            else:
                out[key] = real_tag(k.ty, v)
        elif k.kind == "leaf-list":
            out[key] = tuple(real_tag(k.ty, x) for x in v)
        elif k.kind == "list":
            out[key] = [(label(k, i, t), rview(k, e)) for i, (t, e) in enumerate(v.items())]
        else:
            out[key] = rview(k, v)
    return out


def rget(sch, o, filt):
    return rview(sch, o.get(filter=filt))


def mask(snap, root=True, changed=True, present=True, cchanged=True):
    """drop the flags a property does not talk about (the root object carries no flags)"""
    k = snap[0]
    if k == "leaf":
        return snap
    if k == "ll":
        return ("ll", snap[1] if changed else None, snap[2])
    if k == "list":
        return ("list", snap[1] if changed else None, tuple((t, mask(e, False, changed, present, cchanged)) for t, e in snap[2]))
    return (
        "c",
        snap[1] if changed and cchanged and not root else None,
        snap[2] if present else None,
        tuple((n, mask(x, False, changed, present, cchanged)) for n, x in snap[3]),
    )


def diff(a, b, path=""):
    """first difference between two snapshots (real, model)"""
    if a == b:
        return None
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b or a[0] != b[0]:
        return "%s: %r, expected %r" % (path or "/", a, b)
    k = a[0]
    if k == "c":
        if a[1] != b[1]:
            return "%s: changed=%r, expected %r" % (path or "/", a[1], b[1])
        if a[2] != b[2]:
            return "%s: present=%r, expected %r" % (path or "/", a[2], b[2])
        for (n1, x), (n2, y) in zip(a[3], b[3]):
            d = diff(x, y, path + "/" + n1)
            if d:
                return d
    if k == "list":
        if a[1] != b[1]:
            return "%s: changed=%r, expected %r" % (path, a[1], b[1])
        if [t for t, _ in a[2]] != [t for t, _ in b[2]]:
            return "%s: entries %r, expected %r" % (path, [t for t, _ in a[2]], [t for t, _ in b[2]])
        for (t, x), (_, y) in zip(a[2], b[2]):
            d = diff(x, y, "%s[%s]" % (path, t))
            if d:
                return d
    return "%s: %r, expected %r" % (path or "/", a, b)


class Real:
    """drives the real bindings"""

    def __init__(self, schema, mod, helper=None):
        self.schema, self.mod = schema, mod
        self.helper = helper
        self.root = schema.new(mod, helper)

    def cont(self, path):
        """the real container holding the last step"""
        o, s = self.root, self.schema.root
        for step in path[:-1]:
            o, s = self.down(o, s, step)
        return o, s

    def down(self, o, s, step):
        if isinstance(step, tuple):
            k = s.find(step[0])
            lst = getattr(o, k.py)
            for i, t in enumerate(lst):
                if label(k, i, t) == step[1]:
                    return lst[t], k
            raise KeyError("no entry %s" % (step[1],))
        k = s.find(step)
        return getattr(o, k.py), k

    def node(self, path):
        o, s = self.cont(path)
        return self.down(o, s, path[-1])[0]

    def set(self, path, v, internal=False):
        o, s = self.cont(path)
        py = s.find(path[-1]).py
        if internal:
            getattr(o, "_set_" + py)(v)
        else:
            setattr(o, py, v)

    def unset(self, path):
        o, s = self.cont(path)
        getattr(o, "_unset_" + s.find(path[-1]).py)()

    def ll(self, path, op, *a):
        o, s = self.cont(path)
        py = s.find(path[-1]).py
        if op == "assign":
            setattr(o, py, a[0])
            return
        n = getattr(o, py)
        if op == "append":
            n.append(a[0])
        elif op == "extend":
            n.extend(a[0])
        elif op == "insert":
            n.insert(a[0], a[1])
        elif op == "setitem":
            n[a[0]] = a[1]
        elif op == "delitem":
            del n[a[0]]
        elif op == "pop":
            n.pop(a[0])
        elif op == "remove":
            n.remove(a[0])
        elif op == "clear":
            n.clear()

    def bits(self, path, op, *a):
        o, s = self.cont(path)
        py = s.find(path[-1]).py
        arg = set(a[0].split()) if a else set()
        n = getattr(o, py)
        if op in ("add", "discard", "remove"):
            getattr(n, op)(a[0])
        elif op in ("pop", "clear"):
            getattr(n, op)()
        elif op == "update":
            n.update(arg)
        else:  # the statement  o.leaf |= arg
            f = {"|=": "__ior__", "-=": "__isub__", "&=": "__iand__", "^=": "__ixor__"}[op]
            setattr(o, py, getattr(n, f)(arg))

    def add(self, path, keyvals):
        o, s = self.cont(path)
        k = s.find(path[-1])
        lst = getattr(o, k.py)
        if not k.keys:
            lst.add()
        elif len(k.keys) == 1:
            lst.add(keyvals[k.keys[0]])
        else:
            lst.add(**{safe(n): v for n, v in keyvals.items()})

    def delete(self, path, text):
        o, s = self.cont(path)
        k = s.find(path[-1])
        lst = getattr(o, k.py)
        for i, t in enumerate(lst):
            if label(k, i, t) == text:
                lst.delete(t)
                return
        lst.delete(text)

    def presence(self, path):
        self.node(path)._set_present()

    def snap(self):
        return rsnap(self.schema.root, self.root)

    def view(self, filt=True):
        return rget(self.schema.root, self.root, filt)


def op_text(op):
    if isinstance(op[0], int):  # which instance
        return "instance %d: %s" % (op[0], op_text(op[1:]))
    return "%s(%s)" % (op[0], ", ".join(pathtext(x) if isinstance(x, tuple) and i < 2 else short(x) for i, x in enumerate(op[1:])))


def pathtext(p):
    if not all(isinstance(s, (str, tuple)) for s in p):
        return short(p)
    return "/" + "/".join("%s[%s]" % s if isinstance(s, tuple) else s for s in p)


def short(x):
    r = repr(x)
    return r if len(r) < 60 else r[:50] + "..."


def live_paths(sch, mc, prefix=""):
    """[(xpath-like text, model path)] of every live registered node below a model container"""
    out = []
    for name, k in mc.kids.items():
        p = prefix + "/" + name
        if k.sch.kind in ("leaf", "leaf-list"):
            out.append((p, name))
        elif k.sch.kind == "container":
            out.append((p, name))
            out += live_paths(k.sch, k, p)
        elif k.sch.keys:
            for t, e in k.ents.items():
                q = p + "".join("[%s='%s']" % (n, klex(e.kids[n].sch.ty, e.kids[n].v[0])) for n in k.sch.keys)
                out.append((q, t))
                out += live_paths(k.sch, e, q)
    return out
