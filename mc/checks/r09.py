"""R09: files: dump writes exactly what dumps returns; wherever it fails, nothing that was there before is lost needlessly.

Exhaustive fault injection on the real code: serialising fails at its k-th step, for every k; writing fails after k bytes,
for every k; the document that is loaded ends after k bytes, for every k."""
import json
import os
import re
import resource
import signal
import tempfile

from mc import core, schemas, serial, tree
from mc.alphabet import ops_for
from mc.checks.r07 import histories
from mc.checks.s11 import full
from mc.explore import Spec, built

OLD = "what was in the file before, longer than the document\n" * 2000
FORMATS = {"default": serial.Default, "ietf": serial.Ietf}
SHAPES = (schemas.basic, schemas.choices, schemas.typed, schemas.modules, schemas.orders, schemas.presences)


class Injected(Exception):
    pass


class Faults:
    """the k-th call of the library's steps of serialising raises"""

    def __init__(self, k):
        self.k, self.n, self.saved = k, 0, []

    def patch(self, cls, name):
        f = cls.__dict__.get(name)
        if f is None:
            return
        fn = f.__func__ if isinstance(f, (staticmethod, classmethod)) else f

        def wrapper(*a, **kw):
            self.n += 1
            if self.n == self.k:
                raise Injected("step %d (%s.%s)" % (self.k, cls.__name__, name))
            return fn(*a, **kw)

        self.saved.append((cls, name, f))
        setattr(cls, name, type(f)(wrapper) if isinstance(f, (staticmethod, classmethod)) else wrapper)

    def __enter__(self):
        from pyangbind.lib import base, serialise

        self.patch(base.PybindBase, "get")
        for c in vars(serialise).values():
            if isinstance(c, type) and c.__module__ == serialise.__name__:
                for m in ("default", "preprocess_element", "member_name", "map_pyangbind_type", "encode", "generate_element", "yname_ns_func") + tuple(n for n in vars(c) if n.startswith("yangt_")):
                    self.patch(c, m)
        return self

    def __exit__(self, *a):
        for cls, name, f in reversed(self.saved):
            setattr(cls, name, f)


def fds():
    return sorted(os.readlink("/proc/self/fd/" + x) for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x))


def left(before):
    """the files that are open now and were not before"""
    return [x for x in fds() if x not in before]


def read(fn):
    if not os.path.exists(fn):
        return None
    with open(fn, encoding="utf8", newline="") as fh:
        return fh.read()


def write(fn, text):
    with open(fn, "w", encoding="utf8", newline="") as fh:
        fh.write(text)


class Case:
    def __init__(self, spec, hist, d):
        self.spec, self.d = spec, d
        self.real, self.model = spec.start()
        for j in hist:
            Spec.apply(spec, self.real, self.model, spec.ops[j], check=False)
        self.fn = os.path.join(d, "file.json")
        self.n = 0

    def state(self):
        return self.real.snap()

    def options(self):
        for mode in FORMATS:
            for kw in ({}, {"filter": False}, {"indent": None}, {"indent": 1}, {"skip_subtrees": ["/c"]}, {"filter": False, "skip_subtrees": ["/c/n", "/c/a"]}):
                yield dict(kw, mode=mode)

    def faithful(self):
        """a dump that works"""
        from pyangbind.lib import pybindJSON

        for kw in self.options():
            try:
                want = pybindJSON.dumps(self.real.root, **kw)
            except Exception:
                continue  # what can be dumped is the concern of other properties
            for old in (None, "", OLD):
                self.n += 1
                if os.path.exists(self.fn):
                    os.unlink(self.fn)
                if old is not None:
                    write(self.fn, old)
                before = fds()
                try:
                    pybindJSON.dump(self.real.root, self.fn, **kw)
                except Exception as e:
                    return "dump %s raises %s: %s" % (kw, type(e).__name__, e)
                if left(before):
                    return "dump %s leaves %s open" % (kw, left(before))
                if read(self.fn) != want:
                    return "dump %s writes %s, dumps returns %s" % (kw, tree.short(read(self.fn)), tree.short(want))
        if sorted(os.listdir(self.d)) != ["file.json"]:
            return "dump leaves other files: %s" % os.listdir(self.d)

    def steps(self):
        """serialising fails at every step"""
        from pyangbind.lib import pybindJSON

        for mode in FORMATS:
            for kw in ({"mode": mode}, {"mode": mode, "filter": False}):
                k = 0
                while True:
                    k += 1
                    for old in (OLD, None):
                        self.n += 1
                        if os.path.exists(self.fn):
                            os.unlink(self.fn)
                        if old is not None:
                            write(self.fn, old)
                        before, state = fds(), self.state()
                        with Faults(k) as f:
                            try:
                                pybindJSON.dump(self.real.root, self.fn, **kw)
                                err = None
                            except Exception as e:
                                err = e
                        if f.n < k:
                            break
                        where = "%s: serialising fails at step %d" % (kw, k)
                        if err is None:
                            return "%s: no error is reported" % where
                        if read(self.fn) != old:
                            return "%s: the file %s is now %s" % (where, "that did not exist" if old is None else "that had content", tree.short(read(self.fn)))
                        if left(before):
                            return "%s: left open: %s" % (where, left(before))
                        if self.state() != state:
                            return "%s: the tree changes: %s" % (where, tree.diff(self.state(), state))
                        if sorted(os.listdir(self.d)) != ([] if old is None else ["file.json"]):
                            return "%s: other files are left: %s" % (where, os.listdir(self.d))
                    if f.n < k:
                        break
                if k > 1 and read(self.fn) is not None and read(self.fn) != pybindJSON.dumps(self.real.root, **kw):
                    return "%s: a dump after failed ones writes something else" % kw

    def arguments(self):
        """what cannot be dumped as asked"""
        from pyangbind.lib import pybindJSON

        for obj, kw in (
            (self.real.root, {"skip_subtrees": "/c"}),
            (self.real.root, {"skip_subtrees": None}),
            (self.real.root, {"indent": 2, "skip_subtrees": 5, "mode": "ietf"}),
            (None, {}),
            (object(), {"mode": "ietf"}),
            (5, {}),
        ):
            self.n += 1
            try:
                pybindJSON.dumps(obj, **kw)
                continue
            except Exception:
                pass
            write(self.fn, OLD)
            before = fds()
            try:
                pybindJSON.dump(obj, self.fn, **kw)
                return "dump of %r with %s is silent where dumps raises" % (obj, kw)
            except Exception:
                pass
            if read(self.fn) != OLD:
                return "a refused dump (%r, %s) empties the file" % (obj, kw)
            if left(before):
                return "a refused dump (%r, %s) leaves %s open" % (obj, kw, left(before))

    def targets(self):
        """files that cannot be opened"""
        from pyangbind.lib import pybindJSON
        from pyangbind.lib.serialise import pybindJSONIOError

        os.mkdir(self.fn + ".d")
        try:
            for fn in (self.d + "/no/such/file", self.fn + ".d", self.fn + ".d/", ""):
                for name in ("dump", "load", "load_ietf"):
                    self.n += 1
                    before, state = fds(), self.state()
                    try:
                        if name == "dump":
                            pybindJSON.dump(self.real.root, fn)
                        else:
                            getattr(pybindJSON, name)(fn, self.real.mod, serial.pyname(self.spec.schema))
                        return "%s(%r) reports nothing" % (name, fn)
                    except pybindJSONIOError:
                        pass
                    except Exception as e:
                        return "%s(%r) raises %s instead of pybindJSONIOError" % (name, fn, type(e).__name__)
                    if left(before) or self.state() != state:
                        return "%s(%r) leaves something behind" % (name, fn)
        finally:
            os.rmdir(self.fn + ".d")

    def torn(self):
        """writing fails after k bytes, for every k (an error of the system, in a process with limited file sizes)"""
        from pyangbind.lib import pybindJSON

        for mode in FORMATS:
            text = pybindJSON.dumps(self.real.root, mode=mode).encode()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                msg = ""
                try:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    for k in list(range(len(text) + 1)) + ["full"]:
                        before, state = fds(), self.state()
                        fn = self.fn
                        if k == "full":
                            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                            fn = "/dev/full"
                        else:
                            resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
                        try:
                            pybindJSON.dump(self.real.root, fn, mode=mode)
                            err = None
                        except Exception as e:
                            err = e
                        if k == len(text):
                            if err is not None or read(fn) != text.decode():
                                msg = "a dump for which there is just enough room fails: %r" % err
                                break
                        elif err is None:
                            msg = "writing fails after %s of %d bytes and nothing is reported" % (k, len(text))
                            break
                        if left(before):
                            msg = "writing fails after %s bytes: left open: %s" % (k, left(before))
                            break
                        if self.state() != state:
                            msg = "writing fails after %s bytes: the tree changes" % k
                            break
                    else:
                        pybindJSON.dump(self.real.root, self.fn, mode=mode)
                        if read(self.fn) != text.decode():
                            msg = "a dump after failed ones writes something else"
                except BaseException as e:
                    msg = "harness: %r" % e
                finally:
                    os.write(w, msg.encode("utf8", "replace")[:2000])
                    os._exit(0)
            os.close(w)
            out = b""
            while True:
                c = os.read(r, 4096)
                if not c:
                    break
                out += c
            os.close(r)
            os.waitpid(pid, 0)
            self.n += len(text) + 2
            if out:
                return "%s: %s" % (mode, out.decode())

    def loads(self):
        """loading from a file is loading its text; a file that ends early is refused"""
        from pyangbind.lib import pybindJSON

        for mode, fmt in FORMATS.items():
            f = pybindJSON.load if mode == "default" else pybindJSON.load_ietf
            text = pybindJSON.dumps(self.real.root, mode=mode, indent=None)
            name = serial.pyname(self.spec.schema)

            def outcome(g):
                try:
                    return tree.rsnap(self.spec.schema.root, g())
                except Exception as e:
                    return type(e).__name__

            for k in range(len(text.encode()) + 1):
                self.n += 1
                with open(self.fn, "wb") as fh:
                    fh.write(text.encode()[:k])
                before = fds()
                err = None
                try:
                    o = f(self.fn, self.real.mod, name)
                except Exception as e:
                    err = e
                if left(before):
                    return "%s of a file of %d of %d bytes leaves %s open" % (f.__name__, k, len(text), left(before))
                if k < len(text.encode()):
                    if err is None:
                        return "%s accepts a file that ends after %d of %d bytes" % (f.__name__, k, len(text))
                    continue
                a = tree.rsnap(self.spec.schema.root, o) if err is None else type(err).__name__
                b = outcome(lambda: fmt.load(text, self.real.mod, self.spec.schema))
                if a != b:
                    return "%s gives another tree than loading the text: %s" % (f.__name__, tree.diff(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else (a, b))


_SPECS = {}


def _judge(item):
    label, hists = item
    spec = _SPECS[label]
    res = core.new_result()
    for h in hists:
        with tempfile.TemporaryDirectory(dir=core.SCRATCH) as d:
            c = Case(spec, h, d)
            res["states"] += 1
            res["traces"] += 1
            for part in ("faithful", "steps", "arguments", "targets", "torn", "loads"):
                for x in os.listdir(d):
                    os.unlink(os.path.join(d, x))
                m = getattr(c, part)()
                core.bump(res, part)
                if m:
                    ht = "; ".join(tree.op_text(spec.ops[j]) for j in h)
                    m = m.replace(d, "DIR")
                    res["viol"].append(("%s: %s: %s" % (label, part, re.sub("0x[0-9a-f]+|[0-9]+|[{].*", "N", m.split(": ")[0])[:60]), m + "\ntree: " + (ht or "(empty)"), {"spec": label, "history": ht, "yang": spec.schema.texts()}))
            res["transitions"] += c.n
    return res


def run(ctx):
    _SPECS.clear()
    items = []
    for f in SHAPES:
        s = f(False)
        ops = ops_for(s, good=1, bad=0, badkeys=0, keys=1, llgood=1, lls=("append",), unset=False, keyset=False, internal=True, inplace=False)
        spec = Spec(s.label, s, ops, 0)
        try:
            built(s)
        except Exception as e:
            ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
            continue
        _SPECS[spec.label] = spec
        hs = histories(spec, 1 if ctx.quick else 2)
        idx = {repr(o): i for i, o in enumerate(ops)}
        for rev in (False, True):
            hs.append(tuple(idx[repr(o)] for o in full(spec, rev) if repr(o) in idx))
        items += [(spec.label, hs[i : i + 4]) for i in range(0, len(hs), 4)]
        ctx.bound("%s: %d trees; every step of serialising in 4 ways, every number of bytes written and read" % (spec.label, len(hs)))
    core.pmerge(ctx, _judge, items)
