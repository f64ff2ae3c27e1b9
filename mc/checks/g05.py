"""G05: the bindings do not depend on the run, the hash seed, what else is given and in which order, nor on the order of declarations.

Every permutation of the files on the command line, of the declarations of a module, of the substatements of a statement; hash seeds; and
generation into a directory that has the bindings of another version. The bindings are compared by what they do: the tree they make, and
which of an alphabet of values every leaf takes and what it makes of them."""
import hashlib
import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import core, genbind

VALUES = [
    "", "ab", "aab", "x y", "1", "2", "8", "15", "200", "-3", 7, "1.5", "1.25", "true", "on", "auto", "r w",
    "one", "two", "three", "base:one", "b:one", "ext:two", "m:three", "own-one", "none",
]
FLAGS = ("--presence", "--build-rpcs", "--build-notifications")

# --- what bindings do ----------------------------------------------------------------------------


def value(v):
    kind = getattr(v, "_pybind_generated_by", None)
    if kind == "TypedListType":
        return [str(x) for x in v]
    if hasattr(v, "getValue") and "dict_key" in getattr(v, "_restriction_dict", ()):
        d = v._enumeration_dict.get(str(v), {})
        return [str(v), sorted((k, str(x)) for k, x in d.items() if k != "value" or "@module" not in d)]  # the identities have no numbers
    return [str(v), repr(bytes(v)) if isinstance(v, bytes) else ""]


def attempt(obj, name, v, read):
    try:
        if read == "append":
            getattr(obj, name).append(v)
        else:
            getattr(obj, "_set_" + name)(v)
    except (ValueError, TypeError, KeyError, AttributeError) as e:
        return None
    out = value(getattr(obj, name))
    getattr(obj, "_unset_" + name)()
    return out


def describe(o, ordered):
    """what a container, or an entry, of the bindings does"""
    out = []
    for n in o._pyangbind_elements:
        e = getattr(o, n)
        prop = getattr(type(o), n, None)
        d = {
            "yang": e.yang_name(), "ns": e._namespace, "mod": e._defining_module, "cfg": bool(e._is_config), "rw": prop is not None and prop.fset is not None,
            "choice": e._choice, "key": bool(e._is_keyval), "type": e._yang_type, "presence": e._presence, "path": e._yang_path(), "ext": e._extensions(),
        }
        kind = getattr(e, "_pybind_generated_by", None)
        d["kind"] = kind if kind in ("container", "YANGListType", "TypedListType") else "leaf"
        if kind == "container":
            d["in"] = describe(e, ordered)
        elif kind == "YANGListType":
            d["keys"], d["user"] = e._yang_keys, e._ordered
            item = e._new_item()
            d["in"] = describe(item, ordered)
        else:
            d["default"] = "" if e._default is False else value(e._default)
            d["takes"] = [attempt(o, n, v, "append" if kind == "TypedListType" else "set") for v in VALUES]
        out.append((n, d))
    return out if ordered else sorted(out, key=lambda x: x[0])


def roots(mod, names, ordered):
    out = {}
    for n in names:
        for c in (n, n + "_rpc", n + "_notification"):
            cls = getattr(mod, c, None)
            if cls is not None and isinstance(cls, type):
                out[c] = describe(cls(), ordered)
            elif cls is not None:  # the package of operations
                for k in dir(cls):
                    if k == n and isinstance(getattr(cls, k), type):
                        out[c] = describe(getattr(cls, k)(), ordered)
    if not out:
        raise AssertionError("none of the classes %s was generated" % (names,))
    return out


def text(x):
    return json.dumps(x, sort_keys=True, default=str)


def differ(a, b, where=""):
    if type(a) is not type(b):
        return "%s: %r, not %r" % (where, b, a)
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s: %s only %s" % (where, k, "there" if k in b else "in the reference")
            d = differ(a[k], b[k], "%s/%s" % (where, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r, not %r" % (where, b, a) if len(str(a)) + len(str(b)) < 400 else "%s: %d items, not %d" % (where, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            step = "[%r]" % VALUES[i] if where.endswith("takes") else "/%s" % x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else "[%d]" % i
            d = differ(x, y, where + step)
            if d:
                return d
        return None
    return None if a == b else "%s: %r, not %r" % (where, b, a)


def ungrown(ref, got):
    """got, but for the identities of the further modules"""
    if isinstance(got, dict) and isinstance(ref, dict):
        return {k: [r if r is None and v and "@module" in str(v) else v for r, v in zip(ref.get(k) or [], got[k])] if k == "takes" else ungrown(ref.get(k), got[k]) for k in got}
    if isinstance(got, list) and isinstance(ref, list) and len(got) == len(ref):
        return [ungrown(r, g) for r, g in zip(ref, got)]
    return got


def made(files, main, split, names, ordered=True, flags=FLAGS, into=None):
    """what the bindings do that are generated from files, {name: text}, of which some are given"""
    try:
        if split:
            m = genbind.build_split(files, main=main, flags=flags) if into is None else again(files, main, flags, into)
        else:
            m = genbind.build(files, main=main, flags=flags)
        return roots(m, names, ordered)
    except Exception as e:
        return {"failed": "%s: %s" % (type(e).__name__, str(e)[-300:])}


def again(files, main, flags, d):
    name = os.path.basename(d)
    genbind.source(files, main, flags, split=d)
    for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
        del sys.modules[k]
    sys.path.insert(0, os.path.dirname(d))
    try:
        importlib.invalidate_caches()
        return importlib.import_module(name)
    finally:
        sys.path.remove(os.path.dirname(d))
        for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
            del sys.modules[k]


# --- the files on the command line ---------------------------------------------------------------


def module(name, body, imports=(), header=""):
    return "module %s {\n yang-version 1.1;\n namespace 'urn:%s';\n prefix %s;\n%s%s\n%s\n}\n" % (
        name, name, name, "".join(" import %s { prefix %s; }\n" % i for i in imports), header, "\n".join(body))


BASE = [
    "identity kind;", "identity one { base kind; }", "typedef small { type uint8 { range '1..9'; } default 2; }", "typedef word { type string { length '1..3'; } }",
    "typedef either { type union { type small; type word; } }", "grouping g { leaf gs { type small; } leaf gk { type identityref { base kind; } } container gc { leaf gw { type word; default ab; } } }",
]
MAIN = [
    "identity three { base b:kind; base own; }", "identity own;", "typedef tiny { type b:small { range '1..2 | 7'; } }",
    "container c { uses b:g; leaf t { type tiny; } leaf e { type b:either; } leaf o { type identityref { base own; } } list l { key k; leaf k { type b:word; } leaf v { type tiny; } } }",
    "rpc do { input { leaf i { type tiny; } } output { leaf o { type identityref { base b:kind; } } } }", "notification note { leaf n { type b:either; } }",
]
EXT = [
    "identity two { base b:kind; }", "typedef tiny { type b:small { range '5..8'; } default 8; }", "augment /me:c { leaf x { type tiny; } container xc { leaf y { type me:tiny; } } }",
    "augment /me:c/me:l { leaf z { type b:either; } }", "container ec { leaf k { type identityref { base b:kind; } } }",
]
SUB = "submodule m-sub {\n yang-version 1.1;\n belongs-to m { prefix m; }\n import base { prefix bs; }\n identity sub-base;\n identity own-one { base sub-base; }\n typedef subbed { type bs:small; default 7; }\n container s { leaf sl { type subbed; } leaf sk { type identityref { base sub-base; } } }\n}\n"


def universe():
    return {
        "base": module("base", BASE),
        "m": module("m", MAIN, [("base", "b")]),
        "ext": module("ext", EXT, [("base", "b"), ("m", "me")]),
        "other": module("other", ["identity two { base b:kind; }", "typedef tiny { type string { length '2'; } }", "container c { leaf t { type tiny; } leaf e { type b:either; } leaf k { type identityref { base b:kind; } } }"], [("base", "b")]),
    }


def with_sub():
    u = universe()
    return {
        "base": u["base"],
        "m": module("m", MAIN + ["leaf top { type subbed; }"], [("base", "b")], " include m-sub;\n"),
        "m-sub": SUB,
        "far": module("far", ["augment /x:s { leaf f { type identityref { base x:own; } } }"], [("m", "x")]),
    }


def chain():
    """every module needs the one before it: typedefs, groupings, identities and augmented nodes of it"""
    out, prev = {}, None
    for i, n in enumerate(("c1", "c2", "c3", "c4")):
        p = "p:" if prev else ""
        body = [
            "identity one%s" % (" { base p:one; }" if prev else ";"),
            "typedef t { type %s { range '1..%d'; } default %d; }" % ("p:t" if prev else "uint8", 9 - i, 8 - i),
            "grouping g { leaf g%d { type t; } %s }" % (i, "uses p:g;" if prev else ""),
            "container k { uses g; leaf r { type identityref { base one; } } leaf u { type union { type t; type identityref { base %sone; } } } }" % p,
        ]
        if prev:
            body.append("augment /p:k { container a%d { leaf t { type t; } } }" % i)
        out[n] = module(n, body, [(prev, "p")] if prev else ())
        prev = n
    return out


def file_sets():
    u, s, c = universe(), with_sub(), chain()
    return [("universe", u, ("base", "m", "ext", "other")), ("submodule", s, ("base", "m", "far")), ("chain", c, ("c1", "c2", "c3", "c4"))]


# --- the order of declarations -------------------------------------------------------------------


def bodies(quick):
    """label, other files, parts of which every order means the same, text around them"""
    ids = ["identity own;", "identity one { base own; }", "identity two { base one; base other; }", "identity other;", "container c { leaf a { type identityref { base own; } } leaf b { type identityref { base other; } } }"]
    types = ["typedef t1 { type t2 { range '1..7'; } }", "typedef t2 { type t3; default 7; }", "typedef t3 { type uint8; default 1; }", "typedef u { type union { type t1; type w; } }", "typedef w { type string { length '1..2'; } default ab; }",
             "container c { leaf a { type t1; } leaf b { type u; } leaf-list d { type w; } leaf e { type t2; default 15; } }"]
    uses = ["grouping g { leaf a { type t; } uses h; }", "grouping h { container hc { leaf b { type t; default 8; } } }", "typedef t { type int8; default 7; }", "container c { uses g { refine a { default 1; } } }",
            "augment /m:c/m:hc { leaf x { type t; } container y { presence yes; } }", "augment /m:c/m:hc/m:y { leaf z { type t; } }"]
    kinds = ["container a { leaf x { type int8; } }", "list b { key k; leaf k { type string; } }", "leaf d { type identityref { base one; } }", "leaf-list e { type uint8; }", "choice f { leaf f1 { type string; } container f2 { leaf x { type string; } } }", "rpc r { input { leaf i { type int8; } } }", "notification n { leaf j { type int8; } }", "identity one;", "identity two { base one; }"]
    nested = ["typedef t { type inner; }", "typedef inner { type uint8 { range '1..8'; } default 7; }", "grouping g { leaf gl { type t; } }", "uses g;", "leaf a { type t; }", "list l { key k; leaf k { type t; } uses g; }"]
    out = [
        ("identities", {}, ids, "%s"), ("typedefs", {}, types, "%s"), ("groupings and augments", {}, uses, "%s"),
        ("definitions in a container", {}, nested, "container top { %s }"),
        ("kinds of declarations", {}, kinds if not quick else kinds[:3] + kinds[5:6] + kinds[7:], "%s"),
        ("leaf", {}, ["type int8 { range '1..8'; }", "default 7;", "config false;", "description 'x';", "status current;"], "container c { leaf a { %s } }"),
        ("leaf-list", {}, ["type int8;", "ordered-by user;", "description 'x';", "min-elements 0;"], "container c { leaf-list a { %s } }"),
        ("list", {}, ["key 'k j';", "ordered-by user;", "leaf k { type string; }", "leaf j { type int8; }", "leaf v { type int8; default 7; }", "unique v;"], "container c { list l { %s } }"),
        ("container", {}, ["presence 'x';", "description 'y';", "config true;", "leaf a { type int8; }", "container b { leaf x { type int8; } }"], "container c { %s }"),
        ("config false container", {}, ["config false;", "leaf a { type int8; }", "container b { leaf x { type int8; } }", "list l { leaf x { type int8; } }"], "container c { %s }"),
        ("choice", {}, ["case one { leaf a { type int8; } }", "leaf b { type int8; }", "container d { leaf x { type int8; } }", "default one;", "case two { choice in { leaf y { type int8; } leaf z { type int8; } } }"], "container c { choice ch { %s } }"),
        ("string type", {}, ["length '1..3';", "pattern 'a*b*';", "pattern '.*b';", "pattern 'ab' { modifier invert-match; }"], "leaf s { type string { %s } }"),
        ("decimal64 type", {}, ["fraction-digits 2;", "range '1..8';"], "leaf d { type decimal64 { %s } default 1.5; }"),
        ("enumeration", {}, ["enum on { value 3; }", "enum off { value 1; }", "enum auto { value -2; }"], "leaf e { type enumeration { %s } default on; }"),
        ("bits", {}, ["bit r { position 3; }", "bit w { position 1; }", "bit a { position 0; }"], "leaf e { type bits { %s } default 'r w'; }"),
        ("typedef", {}, ["type uint8 { range '1..8'; }", "default 7;", "units x;", "description 'y';"], "typedef t { %s } leaf a { type t; }"),
        ("identity", {}, ["base b1;", "base b2;", "description 'x';"], "identity b1; identity b2; identity one { %s } leaf a { type identityref { base b1; } } leaf b { type identityref { base b2; } }"),
        ("uses", {}, ["refine a { default 7; }", "refine d/x { config false; }", "augment d { leaf y { type int8; } }", "description 'x';"], "grouping g { leaf a { type int8; } container d { leaf x { type int8; } } } container c { uses g { %s } }"),
        ("rpc", {}, ["input { leaf i { type t; } }", "output { leaf o { type t; } }", "typedef t { type int8; default 7; }", "description 'x';"], "rpc r { %s }"),
        ("leafref type", {}, ["path '../a';", "require-instance false;"], "container c { leaf a { type int8; } leaf b { type leafref { %s } } }"),
    ]
    u = universe()
    out.append(("imports", u, ["import base { prefix b; }", "import other { prefix o; }", "import m { prefix me; }"], None))
    return out


def arranged(parts, around, perm):
    if around is None:  # imports come before the body
        return "module t {\n yang-version 1.1;\n namespace 'urn:t';\n prefix t;\n%s\n leaf a { type b:small; }\n leaf x { type o:tiny; }\n leaf y { type me:tiny; }\n leaf k { type identityref { base b:kind; } }\n}\n" % "\n".join(parts[i] for i in perm)
    return module("m", [around % "\n".join(parts[i] for i in perm)])


# --- directories that are generated into again ---------------------------------------------------


def versions():
    v = {
        "first": ["container c { leaf a { type uint8; } container d { leaf x { type string; } } list l { key k; leaf k { type string; } leaf v { type uint8; } } }", "container e { leaf y { type string; } }"],
        "leaf removed": ["container c { container d { leaf x { type string; } } list l { key k; leaf k { type string; } } }", "container e { leaf y { type string; } }"],
        "leaf added": ["container c { leaf a { type uint8; } leaf b { type uint8; default 7; } container d { leaf x { type string; } leaf z { type int8; } } list l { key k; leaf k { type string; } leaf v { type uint8; } } }", "container e { leaf y { type string; } }"],
        "types changed": ["container c { leaf a { type boolean; } container d { leaf x { type uint8; default 2; } } list l { key k; leaf k { type uint8; } leaf v { type string; } } }", "container e { leaf y { type int8; } }"],
        "container removed": ["container c { leaf a { type uint8; } }"],
        "container becomes leaf": ["container c { leaf a { type uint8; } leaf d { type string; } leaf l { type int8; } }", "leaf e { type string; }"],
        "leaf becomes container": ["container c { container a { leaf q { type uint8; } } container d { container x { leaf p { type int8; } } } }", "container e { list y { key k; leaf k { type string; } } }"],
        "order changed": ["container e { leaf y { type string; } }", "container c { list l { key k; leaf k { type string; } leaf v { type uint8; } } container d { leaf x { type string; } } leaf a { type uint8; } }"],
        "config false": ["container c { config false; leaf a { type uint8; } container d { leaf x { type string; } } list l { key k; leaf k { type string; } leaf v { type uint8; } } }", "container e { leaf y { config false; type string; } }"],
        "operations": ["container c { leaf a { type uint8; } }", "rpc r { input { leaf i { type int8; } } }", "notification n { leaf j { type int8; } }"],
    }
    return {k: {"m": module("m", b)} for k, b in v.items()}


# --- exploration ---------------------------------------------------------------------------------

_REF = {}


def reference(key, *args, **kw):
    if key not in _REF:
        _REF[key] = json.loads(text(made(*args, **kw)))
    return _REF[key]


def judge(res, key, what, ref, got, files, seen, more=False):
    res["states"] += 1
    res["traces"] += 1
    res["transitions"] += len(text(got)) // 200
    got = json.loads(text(got))
    if more:
        got = ungrown(ref, got)
    seen.add(hashlib.sha1(text(got).encode()).hexdigest())
    if "failed" in ref:
        res["viol"].append(("%s: reference" % key, "not generated: %s" % ref["failed"], {"yang": files}))
    elif ref != got:
        res["viol"].append((key, "%s: %s" % (what, got.get("failed") or differ(ref, got)), {"arrangement": what, "yang": files}))


def explore(item):
    kind, label, args = item
    res = core.new_result()
    seen = set()
    if kind == "files":
        split, orders = args
        files, names = next((f, n) for l, f, n in file_sets() if l == label)
        for order in orders:
            # the modules that augment another one are part of what it is, when they are given
            for sub in ("no helper", "xpathhelper"):
                fl = FLAGS + (("--use-xpathhelper",) if sub != "no helper" else ())
                key = ("files", label, split, fl, frozenset(order))
                ref = reference(key, files, sorted(order), split, sorted(order), flags=fl)
                judge(res, "%s: order of files, %s" % (label, "packages" if split else "one file"), "generated from %s" % " ".join(order), ref, made(files, list(order), split, sorted(order), flags=fl), files, seen)
    elif kind == "given":
        # a module by itself, against the same module along with others that do not augment it
        split, order, target = args
        files, names = next((f, n) for l, f, n in file_sets() if l == label)
        ref = reference(("given", label, split, target), files, [target], split, [target])
        judge(res, "%s: other files, %s" % (label, "packages" if split else "one file"), "%s, generated from %s" % (target, " ".join(order)), ref, made(files, list(order), split, [target]), files, seen, True)
    elif kind == "body":
        split, quick, perms = args
        extra, parts, around = next((e, p, a) for l, e, p, a in bodies(quick) if l == label)
        n = "t" if around is None else "m"
        for perm in perms:
            first = dict(extra, **{n: arranged(parts, around, range(len(parts)))})
            ref = reference(("body", label, split), first, [n], split, [n], ordered=False)
            files = dict(extra, **{n: arranged(parts, around, perm)})
            judge(res, "%s: order of declarations, %s" % (label, "packages" if split else "one file"), "declared in the order %s" % (perm,), ref, made(files, [n], split, [n], ordered=False), files, seen)
    elif kind == "again":
        vs = versions()
        for hist in args:
            d = tempfile.mkdtemp(prefix="again", dir=core.SCRATCH)
            try:
                into = os.path.join(d, "mcagain%d" % os.getpid())
                for v in hist[:-1]:
                    genbind.source(vs[v], ["m"], FLAGS, split=into)
                got = made(vs[hist[-1]], ["m"], True, ["m"], into=into)
                ref = reference(("again", hist[-1]), vs[hist[-1]], ["m"], True, ["m"])
                judge(res, "directory generated into again: %s" % hist[-1], "generated after %s" % ", ".join(hist[:-1]), ref, got, vs[hist[-1]], seen)
            except Exception as e:
                res["viol"].append(("directory generated into again: %s" % hist[-1], "%s: %s" % (type(e).__name__, e), {"history": hist}))
            finally:
                shutil.rmtree(d, ignore_errors=True)
    elif kind == "seeds":
        for seed in args:
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.pathsep.join([core.REPO, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]))
            p = subprocess.run([sys.executable, "-B", "-c", "from mc.checks import g05; g05.child()"], env=env, capture_output=True, text=True)
            if p.returncode:
                res["viol"].append(("hash seeds: generation failed", p.stderr[-500:], {"seed": seed}))
                continue
            for l, got in json.loads(p.stdout.splitlines()[-1]).items():
                ref = reference(("seed", l), *seeded()[l])
                judge(res, "hash seeds: %s" % l, "PYTHONHASHSEED=%d" % seed, ref, got, seeded()[l][0], seen)
    core.bump(res, "%s %s" % (kind, label), res["traces"])
    return res


def seeded():
    out = {}
    for l, f, names in file_sets():
        for split in (False, True):
            out["%s, %s" % (l, "packages" if split else "one file")] = (f, list(names), split, list(names))
    for l, e, p, a in bodies(True):
        if l in ("typedefs", "identities", "choice", "kinds of declarations", "string type", "bits"):
            out[l] = ({"m": arranged(p, a, range(len(p)))}, ["m"], False, ["m"])
    return out


def child():
    core.SCRATCH = tempfile.mkdtemp(prefix="seed", dir=core.SCRATCH)
    try:
        genbind.warm()
        print(text({l: made(*a) for l, a in seeded().items()}))
    finally:
        shutil.rmtree(core.SCRATCH, ignore_errors=True)


def chunks(xs, n):
    xs = list(xs)
    return [xs[i : i + n] for i in range(0, len(xs), n)]


def perms_of(n, quick):
    """every permutation, of up to 4 (thorough: 6) parts; else every one that exchanges 2 (thorough: moves up to 3) of them, and the rotations either way"""
    if n <= (4 if quick else 6):
        return list(itertools.permutations(range(n)))
    out = []
    for k in (2, 3) if not quick else (2,):
        for at in itertools.combinations(range(n), k):
            for to in itertools.permutations(at):
                p = list(range(n))
                for i, j in zip(at, to):
                    p[i] = j
                out.append(tuple(p))
    rot = [tuple((i + r) % n for i in range(n)) for r in range(n)]
    out += rot + [tuple(reversed(p)) for p in rot]
    return list(dict.fromkeys(out))


def run(ctx):
    _REF.clear()
    genbind.warm()
    items = []
    for label, files, names in file_sets():
        for split in (False, True):
            for k in range(2, len(names) + 1):
                for given in itertools.combinations(names, k):
                    if k < len(names) and ctx.quick and (split or k > 2):
                        continue
                    items += [("files", label, (split, c)) for c in chunks(itertools.permutations(given), 8)]
    targets = {"universe": {"base": ("base", "m", "ext", "other"), "other": ("base", "m", "ext", "other"), "m": ("base", "m", "other")}, "submodule": {"base": ("base", "m", "far"), "m": ("base", "m")}, "chain": {"c4": ("c1", "c2", "c3", "c4")}}
    for label, ts in targets.items():
        for target, others in ts.items():
            for split in (False, True):
                for k in range(2, len(others) + 1):
                    for given in itertools.combinations(others, k):
                        if target in given:
                            items += [("given", label, (split, order, target)) for order in (itertools.permutations(given) if not ctx.quick else (given, given[::-1]))]
    n = 0
    for label, extra, parts, around in bodies(ctx.quick):
        ps = perms_of(len(parts), ctx.quick)
        n += len(ps)
        items += [("body", label, (False, ctx.quick, c)) for c in chunks(ps, 20)]
        items += [("body", label, (True, ctx.quick, c)) for c in chunks(ps[:: 1 if not ctx.quick else 6], 20)]
    vs = list(versions())
    hists = [(a, b) for a in vs for b in vs] + ([(a, b, c) for a in vs for b in vs for c in (a, "first")] if not ctx.quick else [("first", b, "first") for b in vs])
    items += [("again", "versions", c) for c in chunks(hists, 8)]
    seeds = range(8 if ctx.quick else 64)
    items += [("seeds", "seeds", [s]) for s in seeds]
    core.pmerge(ctx, explore, items)
    ctx.bound("files on the command line: every permutation of every subset of at least 2 of %d sets of files, with and without the xpathhelper%s" % (len(file_sets()), " (of pairs in one file, and of all)" if ctx.quick else ""))
    ctx.bound("%d kinds of statements, %d orders of their parts (every one up to %d parts), in one file and %s as packages" % (len(bodies(ctx.quick)), n, 4 if ctx.quick else 6, "every 6th" if ctx.quick else "all"))
    ctx.bound("%d histories of generating %d versions of a module into one directory; %d hash seeds" % (len(hists), len(vs), len(seeds)))
    ctx.assumptions = ["bindings are the same when they make the same tree and every leaf takes the same of %d values and makes the same of them" % len(VALUES)]
