"""R07: reading - views, iteration, every serialisation with every option, path lookups - changes nothing.

Every state of the bounded histories is read in every way; the history goes on after the reads, in lockstep with the model."""
import json
import re

from mc import core, schemas, serial, structs, tree
from mc.alphabet import ops_for
from mc.checks.x01 import live, text
from mc.explore import Spec, built, run_specs


def scribble(d):
    """destroy a document that was returned"""
    if isinstance(d, dict):
        for v in d.values():
            scribble(v)
        d.clear()
    elif type(d) is list:
        for v in d:
            scribble(v)
        d.append("scribble")
        del d[0]


def own(f, *a, **kw):
    """call, and destroy what is returned: it belongs to the caller"""

    def run():
        scribble(f(*a, **kw))

    return run


def unharmed(arg, f):
    """call with an argument that has to stay as it was"""

    def run():
        before = repr(arg)
        try:
            f(arg)
        finally:
            if repr(arg) != before:
                raise Harmed("the argument %s became %r" % (before, arg))

    return run


UUID = re.compile("[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


class Harmed(Exception):
    pass


def node_reads(sch, o, where):
    """[(name, function)]"""
    inner = sch.kind in ("container", "list") and hasattr(o, "_pyangbind_elements")  # rather than a leaf or a whole list
    out = [("%s of %s" % (f.__name__, where), lambda f=f: f(o)) for f in (str, repr, bool, hash, dir)]
    for m in ("_path", "_yang_path", "_changed", "_present", "yang_name", "default", "_extensions"):
        if hasattr(o, m):
            out.append(("%s() of %s" % (m, where), own(getattr(o, m))))
    for a in ("_default", "_namespace", "_defining_module", "_yang_type", "_is_leaf", "_is_container", "_is_keyval", "_is_config", "_presence", "_metadata", "_supplied_register_path"):
        out.append(("%s of %s" % (a, where), lambda a=a: getattr(o, a)))
    out += [
        ("comparison of " + where, lambda: (o == o, o != o, o == 5, o == "a", o is None, o == None)),  # noqa: E711
        ("missing attribute of " + where, lambda: getattr(o, "no_such_node")),
    ]
    if sch.kind in ("leaf", "leaf-list"):
        out += [("%s of %s" % (f.__name__, where), lambda f=f: f(o)) for f in (len, int, iter, list, sorted, set)]
        out += [
            ("slices of " + where, lambda: scribble(list(o[:])) or scribble(o[:]) or o[0]),
            ("membership in " + where, lambda: ("a" in o, 5 in o, o.count("a"), o.index("a"))),
            ("arithmetic with " + where, lambda: (o + o, o * 2)),
            ("set operations with " + where, lambda: (o | {"r"}, o & {"r"}, o - {"r"}, o ^ {"r"}, o.copy().clear())),
        ]
    if sch.kind != "leaf":
        out += [("get(filter=%s) of %s" % (f, where), own(o.get, filter=f) if hasattr(o, "get") else o) for f in (True, False)]
        out += [("iteration over " + where, lambda: [x for x in o])]
    if inner:
        out += [("elements of " + where, lambda: list(o.elements())), ("item of " + where, lambda: o["x"]), ("slots of " + where, lambda: o.__slots__)]
    if sch.kind == "list" and not inner:
        out += [("%s() of %s" % (m, where), lambda m=m: scribble(list(getattr(o, m)()))) for m in ("keys", "items", "values", "iteritems", "itervalues", "_new_item")]
        out += [
            ("len of " + where, lambda: len(o)),
            ("missing entry of " + where, lambda: o["no such key"]),
            ("membership in " + where, lambda: ("a" in o, "no such" in o, 77 in o, None in o, [o[k] for k in o])),
        ]
    for k in sch.kids if inner else ():
        g = getattr(o, "_get_" + k.py, None)
        if g:
            out.append(("getter of %s/%s" % (where, k.name), g))
    return out


def walk(sch, o, where, leaves=True):
    yield sch, o, where
    for k in sch.kids:
        r = getattr(o, k.py)
        p = where + "/" + k.name
        if k.kind == "container":
            yield from walk(k, r, p)
            continue
        yield k, r, p
        if k.kind == "list":
            for t in list(r):
                yield from walk(k, r[t], "%s[%s]" % (p, t))


def tree_reads(schema, root):
    from pyangbind.lib import pybindJSON
    from pyangbind.lib.serialise import WithDefaults, pybindIETFJSONEncoder, pybindIETFXMLEncoder, pybindJSONEncoder

    out = []
    for sch, o, where in list(walk(schema.root, root, "")):
        if sch.kind != "container":
            continue
        for flt in (True, False):
            for mode in ("default", "ietf"):
                out.append(("dumps(%s, %s) of %s" % (flt, mode, where or "/"), lambda o=o, f=flt, m=mode: pybindJSON.dumps(o, filter=f, mode=m)))
            out.append(("ietf tree(%s) of %s" % (flt, where or "/"), own(pybindIETFJSONEncoder.generate_element, o, flt=flt)))
            out.append(("xml(%s) of %s" % (flt, where or "/"), lambda o=o, f=flt: pybindIETFXMLEncoder.serialise(o, filter=f)))
        out.append(("with-defaults of " + where, lambda o=o: pybindJSON.dumps(o, mode="ietf", with_defaults=WithDefaults.IF_SET)))
        out.append(("encoder of " + where, lambda o=o: json.dumps(o.get(), cls=pybindJSONEncoder)))
    c = root.c if hasattr(root, "c") else root
    for k in schema.root.kids:
        if k.kind != "container":
            continue
        o = getattr(root, k.py)
        for kk in k.kids:
            p = "/%s/%s" % (k.name, kk.name)
            for mode in ("default", "ietf"):
                out.append(("dumps skipping %s, %s" % (p, mode), unharmed([p], lambda s, o=o, m=mode: pybindJSON.dumps(o, skip_subtrees=s, mode=m))))
                out.append(("dumps of / skipping %s, %s" % (p, mode), unharmed([p], lambda s, m=mode: pybindJSON.dumps(root, skip_subtrees=s, mode=m))))
            if kk.kind == "list":
                for n in kk.kids:
                    for mode in ("default", "ietf"):
                        out.append(("dumps of %s selecting %s, %s" % (p, n.name, mode), unharmed({n.name: "a"}, lambda s, o=getattr(o, kk.py), m=mode: pybindJSON.dumps(o, select=s, mode=m))))
    return out


def path_reads(schema, root, ph):
    out = [("lookup of %s" % p, lambda p=p: scribble(ph.get(p))) for p in ("//*", "/", "/c", "/m:c", "/no/such", "/c/no", "c", "", "../c", "/c/l[k='no']", "//c/..", "/c[", "/c/*")]
    out.append(("tostring", lambda: ph.tostring(pretty_print=True)))
    for st, o in live(schema.root, root, ()):
        p = text(st)
        if p is None:
            continue
        out += [
            ("lookup of live " + p, lambda p=p: (ph.get(p), ph.get_unique(p), scribble(ph.get_list(p)), ph.get_list(p + "/no"))),
            ("lookup by parts of " + p, unharmed(o._path(), lambda a: scribble(ph.get(a)))),
            ("lookup from " + p, unharmed(o._path(), lambda a: (ph.get("..", caller=a), ph.get("../*", caller=a)))),
        ]
    return out


class Reads(Spec):
    noop_on_refusal = False
    every = False

    def apply(self, real, model, op, check=True):
        out = super().apply(real, model, op, check)
        if check:
            return out
        self.read_all(real)
        return out

    def all_reads(self, real):
        out = tree_reads(self.schema, real.root)
        for sch, o, where in walk(self.schema.root, real.root, ""):
            out += node_reads(sch, o, where or "/")
        if real.helper is not None:
            out += path_reads(self.schema, real.root, real.helper)
        return out

    def read_all(self, real, each=None):
        n = 0
        for name, f in self.all_reads(real):
            n += 1
            try:
                f()
            except Harmed as e:
                return [("argument of " + name.split(" ")[0], "%s: %s" % (name, e))]
            except Exception:
                pass
            if each is not None:
                after = each(real)
                if after != self._before:
                    return [("effect of " + name.split(" of ")[0], "%s changes the tree: %s" % (name, self.what(self._before, after)))]
        return []

    def quick_obs(self, real):
        reg = sorted(repr(o._path()) for o in real.helper.get("//*") if hasattr(o, "_path")) if real.helper is not None else None
        return real.snap(), repr(real.view(True)), repr(real.view(False)), reg and [UUID.sub("uuid", r) for r in reg]

    def full_obs(self, real):
        return self.quick_obs(real) + tuple(self.dump(f, real) for f in serial.FORMATS.values())

    @staticmethod
    def dump(f, real):
        try:
            return UUID.sub("uuid", f.dump(real.root))  # keys of entries without keys
        except Exception as e:
            return repr(e)

    @staticmethod
    def what(a, b):
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, tuple):
                    return tree.diff(y, x)
                return "%s ... was %s" % (str(y)[:200], str(x)[:200])

    def check(self, real, model, op, want):
        if want == "refused":
            return []
        d = tree.diff(tree.mask(real.snap(), **self.masks), tree.mask(model.snap(), **self.masks))
        if d:
            return [("tree", "the history, interleaved with reads, gives another tree: " + d)]
        return []

    def judge(self, hist):
        """the state a history reaches, read in every way"""
        plain_r, plain_m = self.start()
        for i in hist:
            Spec.apply(self, plain_r, plain_m, self.ops[i], check=False)
        want = self.full_obs(plain_r)
        again = self.full_obs(plain_r)
        if again != want:
            return [("twice", "serialising or viewing twice gives something else: " + self.what(want, again))]
        v = self.read_all(plain_r)
        if v:
            return v
        got = self.full_obs(plain_r)
        if got != want:
            fresh_r, fresh_m = self.start()  # find the read
            for i in hist:
                Spec.apply(self, fresh_r, fresh_m, self.ops[i], check=False)
            self._before = self.full_obs(fresh_r)
            return self.read_all(fresh_r, self.full_obs) or [("reads", "reading changes the tree: " + self.what(want, got))]
        reads_r, _ = self.replay(hist)
        got = self.full_obs(reads_r)
        if got != want:
            return [("interleaved", "the history interleaved with reads gives something else: " + self.what(want, got))]
        return []


_SPECS = {}


def _judge(item):
    label, hists = item
    spec = _SPECS[label]
    res = core.new_result()
    for h in hists:
        real, _ = spec.start()
        res["states"] += 1
        res["traces"] += 3
        try:
            v = spec.judge(h)
            res["transitions"] += len(h) + 1
        except Exception as e:
            v = [("crash", "%s: %s" % (type(e).__name__, e))]
        for aspect, msg in v:
            ht = "; ".join(tree.op_text(spec.ops[j]) for j in h)
            res["viol"].append(("%s: %s" % (label, aspect), msg + "\nhistory: " + ht, {"spec": label, "history": ht, "yang": spec.schema.texts()}))
    core.bump(res, label, len(hists))
    return res


def histories(spec, depth):
    """histories up to depth, one per reached model state (and all of length 1)"""
    seen, out, frontier = set(), [()], [()]
    for _ in range(depth):
        nxt = []
        for h in frontier:
            for i in range(len(spec.ops)):
                _, m = None, tree.Model(spec.schema)
                ok = True
                for j in h + (i,):
                    try:
                        getattr(m, spec.ops[j][0])(*spec.ops[j][1:])
                    except tree.Disabled:
                        ok = False
                        break
                    except tree.Refuse:
                        if j == i:
                            ok = False
                            break
                if not ok:
                    continue
                s = core.h(m.snap())
                if s in seen and len(h) >= 1:
                    continue
                seen.add(s)
                nxt.append(h + (i,))
        out += nxt
        frontier = nxt
    return out


def run(ctx):
    from mc.checks.s11 import full

    _SPECS.clear()
    items = []
    for f in structs.SHAPES:
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=2, bad=0, badkeys=0, keys=2, llgood=2, lls=("append", "pop"), keyset=False, internal=True)
            spec = Reads(s.label + ("/xpath" if x else ""), s, ops, 0)
            try:
                built(s)
            except Exception as e:
                ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
                continue
            _SPECS[spec.label] = spec
            hs = histories(spec, (2 if not x else 1) if ctx.quick else (3 if not x else 2))
            idx = {repr(o): i for i, o in enumerate(ops)}
            for rev in (False, True):
                fl = [idx[repr(o)] for o in full(spec, rev) if repr(o) in idx]
                hs += [tuple(fl), tuple(fl[: len(fl) // 2]), tuple(fl[::2])]
            items += [(spec.label, hs[i : i + 20]) for i in range(0, len(hs), 20)]
            real, _ = spec.start()
            ctx.bound("%s: %d states (histories up to %d operations, and full trees); each read in %d or more ways, the histories repeated with all reads after every step" % (spec.label, len(hs), max(1, 2 if not x else 1), len(spec.all_reads(real))))
    core.pmerge(ctx, _judge, items)
