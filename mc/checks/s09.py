"""S09: config false nodes cannot be assigned through attributes, configuration nodes can, and the load path populates both.

Every placement of up to three `config` statements on the positions of a skeleton that has a node of every kind, stated
in the node itself, by refine, by deviation, and in nodes that another module augments."""
import itertools
import json

from mc import core, genbind
from mc.tree import ERRORS, safe

# (kind, name, children or type); the text after the name is the type of a leaf
SK = (
    "container", "c", (
        ("leaf", "a", "type uint8;"),
        ("leaf", "u", "type union { type uint8; type enumeration { enum x; } }"),
        ("leaf", "r", "type leafref { path '../k0'; require-instance false; }"),
        ("leaf", "k0", "type string;"),
        ("leaf-list", "b", "type string;"),
        ("leaf-list", "rb", "type leafref { path '../k0'; require-instance false; }"),
        ("list", "l", (("key", "k", "type string;"), ("leaf", "v", "type bits { bit p; bit q; }"), ("container", "i", (("leaf", "x", "type string;"),)))),
        ("choice", "ch", (
            ("case", "z", (("leaf", "y", "type string;"), ("container", "w", (("leaf", "x", "type decimal64 { fraction-digits 2; }"),)))),
            ("case", "z2", (("choice", "cc", (("case", "z3", (("leaf", "cx", "type boolean;"),)), ("case", "z4", (("leaf-list", "cl", "type uint8;"),)))),)),
        )),
        ("container", "n", (("leaf", "x", "type empty;"), ("pcontainer", "p", (("leaf", "x", "type binary;"), ("list", "ll", (("key", "k", "type uint8;"), ("leaf", "x", "type string;"))))))),
    ),
)  # fmt: skip
VAL = {"a": 5, "u": "x", "r": "s", "k0": "s", "b": ["s"], "rb": ["s"], "v": "p", "y": "s", "cx": True, "cl": [4], "x": None, "k": None}


def walk(n, path=()):
    """every position"""
    kind, name, rest = n
    path = path + (name,)
    yield path, n
    if isinstance(rest, tuple):
        for k in rest:
            yield from walk(k, path)


POS = dict(walk(SK))
CFG = [p for p, n in POS.items() if n[0] not in ("case", "key")]


def effective(place, p):
    """the config status of position p, or None when the placement is not valid YANG"""
    cur = True
    for i in range(1, len(p) + 1):
        c = place.get(p[:i])
        if c is not None:
            if c and not cur:
                return None
            cur = c
    return cur


def valid(place):
    for p, n in POS.items():
        e = effective(place, p)
        if e is None:
            return False
    return True


def placements(k):
    for m in range(k + 1):
        for ps in itertools.combinations([p for p in CFG if m < 2 or p[-1] not in ("u", "r", "rb", "cl")], m):
            for vs in itertools.product((False, True), repeat=m):
                pl = dict(zip(ps, vs))
                if valid(pl):
                    yield pl


def text(n, place, path=(), name=None):
    kind, nm, rest = n
    path = path + (nm,)
    cfg = place.get(path)
    cfg = "" if cfg is None else "config %s; " % str(cfg).lower()
    nm = name or nm
    if not isinstance(rest, tuple):
        return "%s %s { %s %s}\n" % ("leaf" if kind == "key" else kind, nm, rest, cfg)
    key = " key k;" if kind == "list" else ""
    pres = " presence p;" if kind == "pcontainer" else ""
    return "%s %s {%s%s %s\n%s}\n" % (kind.replace("pc", "c"), nm, key, pres, cfg, "".join(text(k, place, path) for k in rest))


def schema_path(path, pfx=""):
    return "/".join(pfx + p for p in path)


def modules(mode, pls):
    """-> {module: text}; the variants are containers v0, v1, .. of module m"""
    hdr = "module %s { yang-version 1.1; namespace 'urn:%s'; prefix %s;%s\n"
    if mode == "direct":
        return {"m": hdr % ("m", "m", "m", "") + "".join(text(SK, p, name="v%d" % i) for i, p in enumerate(pls)) + "}"}
    if mode == "refine":
        out = hdr % ("m", "m", "m", "") + "grouping g {\n" + "".join(text(k, {}, ("c",)) for k in SK[2]) + "}\n"
        for i, p in enumerate(pls):
            top = p.get(("c",))
            out += "container v%d { %s uses g { %s } }\n" % (
                i,
                "" if top is None else "config %s;" % str(top).lower(),
                " ".join("refine %s { config %s; }" % (schema_path(q[1:]), str(v).lower()) for q, v in p.items() if len(q) > 1),
            )
        return {"m": out + "}"}
    if mode == "deviate":
        out = hdr % ("m", "m", "m", "") + "".join(text(SK, {}, name="v%d" % i) for i, p in enumerate(pls)) + "}"
        dev = hdr % ("d", "d", "d", " import m { prefix m; }")
        for i, p in enumerate(pls):
            for q, v in p.items():
                dev += "deviation '/m:v%d%s' { deviate replace { config %s; } }\n" % (i, "".join("/m:" + s for s in q[1:]), str(v).lower())
        return {"m": out, "d": dev + "}"}
    if mode == "augment":
        out = hdr % ("m", "m", "m", "")
        aug = hdr % ("w", "w", "w", " import m { prefix m; }")
        for i, p in enumerate(pls):
            top = p.get(("c",))
            ch = p.get(("c", "ch"))
            out += "container v%d { %s choice ch { %s } }\n" % (i, "" if top is None else "config %s;" % str(top).lower(), "" if ch is None else "config %s;" % str(ch).lower())
            aug += "augment '/m:v%d' {\n%s}\n" % (i, "".join(text(k, p, ("c",)) for k in SK[2] if k[1] != "ch"))
            aug += "augment '/m:v%d/m:ch' {\n%s}\n" % (i, "".join(text(k, p, ("c", "ch")) for k in POS[("c", "ch")][2]))
        return {"m": out + "}", "w": aug + "}"}


def value(n, path):
    kind, name, rest = n
    if name == "x":
        return {"decimal64": "1.50", "empty": True, "binary": b"q", "string": "s"}[rest.split()[1].rstrip(";")]
    if name == "k":
        return 3 if "uint8" in rest else "s"
    return VAL[name]


def flat(kids, path):
    """data children of a position, with their position paths (choices and cases are no data nodes)"""
    for k in kids:
        p = path + (k[1],)
        if k[0] in ("choice", "case"):
            yield from flat(k[2], p)
        else:
            yield p, k


def doc(kids, path, case, text_form):
    """a document with every node of one case set"""
    out = {}
    for p, k in flat(kids, path):
        if ("ch" in p and "z" in p) if case else ("z2" in p):
            continue
        if ("z3" if case == 1 else "z4") in p:
            continue
        kind, name, rest = k
        if kind in ("container", "pcontainer"):
            out[name] = doc(rest, p, case, text_form)
        elif kind == "list":
            e = doc(rest, p, case, text_form)
            out[name] = [e] if text_form == "ietf" else {str(e["k"]): e}
        else:
            v = value(k, p)
            if isinstance(v, bytes):
                v = "cQ=="
            if "empty" in str(rest) and text_form == "ietf":
                v = [None]
            out[name] = v
    return out


def probe(kids, path, o, place, report, n):
    """assign and delete every child of a real container through its attributes"""
    for p, k in flat(kids, path):
        kind, name, rest = k
        py = safe(name)
        e = effective(place, p)
        n[0] += 1
        cur = getattr(o, py)
        if bool(cur._is_config) != e:
            report(p, "is-config", "_is_config is %r" % cur._is_config)
        if kind == "key":
            continue
        before = repr(o.get())
        v = value(k, p) if not isinstance(rest, tuple) else cur
        try:
            setattr(o, py, v)
            got = True
        except AttributeError:
            got = False
        except ERRORS as x:
            got = "%s %s" % (type(x).__name__, str(x)[:100])
        if got is not e:
            report(p, "assign", "assignment of %r %s" % (v, "accepted" if got is True else "refused (%s)" % got))
        if got is not True and repr(o.get()) != before:
            report(p, "assign-effect", "refused assignment changed the tree")
        before = repr(o.get())
        try:
            delattr(o, py)
            report(p, "delete", "del accepted")
        except AttributeError:
            pass
        if repr(o.get()) != before:
            report(p, "delete-effect", "refused del changed the tree")
        if isinstance(rest, tuple):
            below = getattr(o, py)
            if kind == "list":
                key = 3 if "uint8" in rest[0][2] else "s"
                below = below[key] if key in below else below.add(key)
            probe(rest, p, below, place, report, n)
        else:
            if not getattr(o, "_set_" + py, None):
                report(p, "setter", "no internal setter")
                continue
            getattr(o, "_set_" + py)(value(k, p))
            if not getattr(o, py)._changed():
                report(p, "setter", "the internal setter did not set the node")


def compare(kids, path, o, want, report, form):
    """the loaded tree holds exactly the document"""
    for p, k in flat(kids, path):
        kind, name, rest = k
        r = getattr(o, safe(name))
        if kind in ("container", "pcontainer"):
            compare(rest, p, r, want.get(name, {}), report, form)
        elif kind == "list":
            ents = want.get(name, [])
            ents = list(ents.values()) if isinstance(ents, dict) else ents
            if len(r) != len(ents):
                report(p, form, "%d entries loaded" % len(r))
            else:
                for key, e in zip(r, ents):
                    compare(rest, p, r[key], e, report, form)
        elif bool(r._changed()) != (name in want):
            report(p, form, "after loading, the node is %sset" % ("" if r._changed() else "not "))


def xml(kids, path, d, ns):
    out = ""
    for p, k in flat(kids, path):
        kind, name, rest = k
        if name not in d:
            continue
        for v in list(d[name].values()) if kind == "list" else d[name] if kind == "leaf-list" else [d[name]]:
            if isinstance(rest, tuple):
                out += "<%s xmlns='urn:%s'>%s</%s>" % (name, ns, xml(rest, p, v, ns), name)
            else:
                t = "" if "empty" in rest else {True: "true"}.get(v, v) if isinstance(v, bool) else v
                out += "<%s xmlns='urn:%s'>%s</%s>" % (name, ns, t, name)
    return out


def _variants(item):
    from pyangbind.lib import serialise as ser

    mode, flags, pls = item
    mod = genbind.build(modules(mode, pls), flags=flags)
    res = core.new_result()
    helper = None
    if "--use-xpathhelper" in flags:
        from pyangbind.lib.xpathhelper import YANGPathHelper

        helper = YANGPathHelper
    for i, pl in enumerate(pls):
        desc = ", ".join("%s config %s" % ("/".join(p), v) for p, v in pl.items()) or "no config statement"

        def report(p, aspect, msg):
            e = effective(pl, p)
            res["viol"].append(
                (
                    "%s %s: %s of %s node %s" % (mode, aspect, POS[p][0], "config" if e else "read-only", "/".join(p)),
                    "%s\n%s is %s; %s; %s" % (msg, "/".join(p), "configuration" if e else "config false", desc, mode),
                    {"mode": mode, "placement": desc, "flags": flags},
                )
            )

        n = [0]
        vname = "v%d" % i
        root = mod.m(path_helper=helper()) if helper else mod.m()
        o = getattr(root, vname)
        probe(SK[2], ("c",), o, pl, report, n)
        for case in (0, 1, 2):
            for form in ("json", "ietf", "xml"):
                root = mod.m(path_helper=helper()) if helper else mod.m()
                d = doc(SK[2], ("c",), case, form)
                n[0] += 1
                try:
                    if form == "json":
                        ser.pybindJSONDecoder.load_json({vname: json.loads(json.dumps(d))}, None, None, obj=root)
                    elif form == "ietf":
                        ser.pybindJSONDecoder.load_ietf_json({"m:" + vname: json.loads(json.dumps(d))}, None, None, obj=root)
                    else:
                        ns = "w" if mode == "augment" else "m"
                        from lxml import objectify

                        t = "<m xmlns='urn:m'><%s>%s</%s></m>" % (vname, xml(SK[2], ("c",), d, ns), vname)
                        ser.pybindIETFXMLDecoder.load_xml(objectify.fromstring(t), None, None, obj=root)
                except ERRORS as e:
                    report(("c",), form + " load", "%s: %s" % (type(e).__name__, str(e)[:300]))
                    continue
                compare(SK[2], ("c",), getattr(root, vname), d, report, form + " load")
        res["transitions"] += n[0]
        res["states"] += 1
        res["traces"] += 1
        core.bump(res, "%s %d statements, %d read-only" % (mode, len(pl), sum(effective(pl, p) is False for p in POS)))
    res["samples"] = [{"mode": mode, "placement": desc}]
    return res


def run(ctx):
    deep = {"direct": 2, "refine": 1, "deviate": 1, "augment": 1} if ctx.quick else {"direct": 3, "refine": 2, "deviate": 2, "augment": 2}
    full = ("--presence", "--use-xpathhelper", "--use-extmethods", "--build-rpcs", "--build-notifications")
    jobs = []
    for mode, k in deep.items():
        pls = list(placements(k))
        for flags in ((), full) if mode == "direct" else (("--presence",),):
            sub = pls if flags != full or not ctx.quick else [p for p in pls if len(p) < 2]
            jobs += [(mode, flags, sub[j : j + 8]) for j in range(0, len(sub), 8)]
    core.pmerge(ctx, _variants, jobs)
    for mode, k in deep.items():
        ctx.bound("%s: every valid placement of up to %d config statements on %d positions" % (mode, k, len(CFG)))

