"""G04: a type name means the typedef in scope: every arrangement of one name over the scopes of a module, its submodule and an
imported module, under several arrangements of prefixes; defaults and restrictions follow the definition."""
import itertools

from mc import core, genbind

# scope: enclosing scope (a module or submodule is its own top)
M_SCOPES = {"m": None, "ms": None, "c1": "m", "inner": "c1", "ll": "m", "g": "m", "in": "m", "out": "m", "nt": "m", "k1": "m", "k2": "m", "sc": "ms", "ac": "m"}
A_SCOPES = {"a": None, "ca": "a", "ga": "a"}

# place of leaves: (scopes from the inside out, how to reach the object)
TOP = ("m", "ms")
PLACES = {
    "top": (TOP, lambda r: r["m"].top),
    "c1": (("c1",) + TOP, lambda r: r["m"].c1),
    "inner": (("inner", "c1") + TOP, lambda r: r["m"].c1.inner),
    "deep": (("inner", "c1") + TOP, lambda r: r["m"].c1.inner.deep),
    "ll": (("ll",) + TOP, lambda r: r["m"].ll["1"]),
    "u1": (("g",) + TOP, lambda r: r["m"].u1.gi),
    "u2": (("g",) + TOP, lambda r: r["m"].u2.gi),
    "in": (("in",) + TOP, lambda r: r["rpc"].op.input),
    "out": (("out",) + TOP, lambda r: r["rpc"].op.output),
    "nt": (("nt",) + TOP, lambda r: r["notification"].nt),
    "k1": (("k1",) + TOP, lambda r: r["m"].k1),
    "k2": (("k2",) + TOP, lambda r: r["m"].k2),
    "sc": (("sc", "ms"), lambda r: r["m"].sc),
    "ac": (("ac",) + TOP, lambda r: r["m"].c1.ac),
    "ua": (("ga", "a"), lambda r: r["m"].ua.gai),
    "ca": (("ca", "a"), lambda r: r["a"].ca),
}
IN_M = [p for p in PLACES if p not in ("ua", "ca")]

# label: prefixes of m and a, prefixes under which m and ms import a, prefix of ms for m
PREFIXES = {
    "usual": ("m", "a", "a", "a", "m"),
    "renamed": ("pm", "pa", "qa", "sa", "sm"),
    "same": ("p", "p", "q", "q", "r"),
    "exchanged": ("a", "m", "m", "ms", "p"),
}


def arrangements(limit):
    """sets of scopes that may define the same name"""
    inner = [s for s in M_SCOPES if M_SCOPES[s] is not None]
    ms = [("m",), ("ms",)]
    for n in list(range(limit + 1)) + [len(inner) - 1]:
        for c in itertools.combinations(inner, n):
            if not {"c1", "inner"} <= set(c):
                ms.append(c)
    for x in ms:
        for y in [(), ("a",), ("ca",), ("ga",), ("ca", "ga")]:
            if x or y:
                yield x + y


def visible(defs, place):
    return next((s for s in PLACES[place][0] if s in defs), None)


class Name:
    def __init__(self, n, defs, default):
        self.n, self.defs, self.default = n, defs, default

    def typedefs(self, scope):
        if scope not in self.defs:
            return ""
        n, d = self.n, "default '%s'; " % scope if self.default else ""
        return (
            "typedef v%s { type t%s { length '1..9'; } }\n" % (n, n)  # used before it is defined
            + "typedef z%s { type union { type w%s; type t%s; } }\n" % (n, n, n)
            + "typedef w%s { type enumeration { enum 'extra-%s'; } }\n" % (n, scope)
            + "typedef t%s { type string { pattern '%s'; } %s}\n" % (n, scope, d)
        )

    def leaves(self, place):
        t = ""
        n = self.n
        if visible(self.defs, place):
            t += "leaf t%s { type t%s; }\nleaf v%s { type v%s; }\nleaf z%s { type z%s; }\n" % ((n,) * 6)
            t += "leaf-list l%s { type t%s; }\nleaf u%s { type union { type w%s; type v%s; } }\n" % ((n,) * 5)
        return t

    def foreign(self, place, pfx):
        if "a" in self.defs and place in IN_M:
            return "leaf ft%s { type %s:t%s; }\nleaf fx%s { type x%s; }\n" % (self.n, pfx, self.n, self.n, self.n)
        return ""


def texts(names, cfg):
    pm, pa, ia, sa, sm = PREFIXES[cfg]

    def defs(s):
        return "".join(n.typedefs(s) for n in names)

    def leaves(p):
        own = "".join(n.leaves(p) for n in names)
        return own + "".join(n.foreign(p, sa if p == "sc" else ia) for n in names) + "leaf fill { type string; }\n"

    return {
        "a": "module a { yang-version 1.1; namespace 'urn:a'; prefix %s;\n%s container ca { %s %s }\n grouping ga { %s container gai { %s } }\n}"
        % (pa, defs("a"), defs("ca"), leaves("ca"), defs("ga"), leaves("ua")),
        "ms": "submodule ms { yang-version 1.1; belongs-to m { prefix %s; } import a { prefix %s; }\n%s%s container sc { %s %s } }"
        % (sm, sa, "".join("typedef x%s { type %s:t%s; }\n" % (n.n, sa, n.n) for n in names if "a" in n.defs), defs("ms"), defs("sc"), leaves("sc")),
        "m": (
            "module m { yang-version 1.1; namespace 'urn:m'; prefix %s; import a { prefix %s; } include ms;\n" % (pm, ia)
            + "container top { %s }\n" % leaves("top")
            + "container c1 { %s container inner { container deep { %s } %s %s } %s }\n" % (leaves("c1"), leaves("deep"), leaves("inner"), defs("inner"), defs("c1"))
            + "list ll { key k; %s leaf k { type string; } %s }\n" % (defs("ll"), leaves("ll"))
            + "grouping g { %s container gi { %s } }\n container u1 { uses g; } container u2 { uses g; }\n" % (defs("g"), leaves("u1"))
            + "rpc op { input { %s %s } output { %s %s } }\n" % (defs("in"), leaves("in"), defs("out"), leaves("out"))
            + "notification nt { %s %s }\n" % (defs("nt"), leaves("nt"))
            + "choice ch { case one { container k1 { %s %s } } container k2 { %s %s } }\n" % (defs("k1"), leaves("k1"), defs("k2"), leaves("k2"))
            + "augment '/%s:c1' { container ac { %s %s } }\n" % (pm, defs("ac"), leaves("ac"))
            + "container ua { uses %s:ga; }\n" % ia
            + defs("m")
            + "}"
        ),
    }


ALL = list(M_SCOPES) + list(A_SCOPES)


def probe(obj, leaf, value):
    try:
        setattr(obj, leaf, value)
        return True
    except ValueError:
        return False


def explore(item):
    names, cfg = item
    res = core.new_result()
    t = texts(names, cfg)
    try:
        mod = genbind.build(t, main=["m", "a"], flags=["--build-rpcs", "--build-notifications"])
    except Exception as e:
        if len(names) > 1:
            for k in names[: len(names) // 2], names[len(names) // 2 :]:
                r = explore((k, cfg))
                for key in ("states", "transitions", "traces"):
                    res[key] += r[key]
                res["viol"] += r["viol"]
                if r["viol"]:
                    break
            return res
        res["viol"].append(("%s prefixes: bindings unusable" % cfg, "name defined in %s: %s" % (", ".join(names[0].defs), str(e)[-1500:]), {"yang": t}))
        return res
    roots = {"m": mod.m(), "a": mod.a(), "rpc": mod.yc_m_m__m_rpc(), "notification": mod.yc_m_m__m_notification()}
    roots["m"].ll.add("1")
    for place, (chain, reach) in PLACES.items():
        obj = reach(roots)
        for n in names:
            want = {}
            s = visible(n.defs, place)
            if s:
                want = {"t": s, "v": s, "z": s, "l": s, "u": s}
            if "a" in n.defs and place in IN_M:
                want["ft"] = want["fx"] = "a"
            for kind, s in want.items():
                leaf = "%s%s" % (kind, n.n)
                where = "%s prefixes, name defined in %s%s, leaf %s in %s" % (cfg, ", ".join(n.defs), " with defaults" if n.default else "", kind, place)
                res["states"] += 1
                node = getattr(obj, leaf, None)
                if node is None:
                    res["viol"].append(("%s: not generated" % kind, where, {"yang": t}))
                    continue
                default = s if n.default and kind in ("t", "v", "ft", "fx") else None
                if kind in ("t", "v", "ft", "fx"):
                    got = node._default
                    if (got if got in (None, False) else str(got)) not in ((None, False) if default is None else (default,)):
                        res["viol"].append(("%s: default of another definition" % kind, "%s: default %r instead of %r" % (where, got, default), {"yang": t}))
                for v in ALL + ["extra-" + s, "extra-none", ""]:
                    expect = v == s or (kind in "zu" and v == "extra-" + s)
                    res["transitions"] += 1
                    if kind == "l":
                        try:
                            node.append(v)
                            got = True
                        except ValueError:
                            got = False
                    else:
                        got = probe(obj, leaf, v)
                    core.bump(res, "%s %s" % (kind, got))
                    if got != expect:
                        res["viol"].append(("%s: takes the values of another definition" % kind, "%s: %r %s" % (where, v, "accepted" if got else "refused"), {"yang": t}))
                        break
                    if got and kind != "l" and str(getattr(obj, leaf)) != v:
                        res["viol"].append(("%s: holds another value" % kind, "%s: set to %r, holds %r" % (where, v, getattr(obj, leaf)), {"yang": t}))
                getattr(obj, "_unset_" + leaf)()
    res["traces"] += len(names)
    return res


def run(ctx):
    limit = 2 if ctx.quick else 3
    step = 24
    items = []
    for cfg in PREFIXES:
        most = limit if cfg == "exchanged" or not ctx.quick else 1
        names = [Name("%d%s" % (i, "d" if d else "n"), defs, d) for d in (False, True) for i, defs in enumerate(arrangements(most))]
        items += [(names[k : k + step], cfg) for k in range(0, len(names), step)]
        ctx.bound("%s prefixes: one name defined in every set of up to %d of the %d nested scopes of a module, or in all of them, or at the top of the module or submodule, and in every set of scopes of an imported module, with and without defaults" % (cfg, most, len(M_SCOPES) - 2))
    core.pmerge(ctx, explore, items)
    ctx.bound("%d places of use, 7 ways of use (directly, through a restricting typedef, a union typedef, a union, a leaf-list, from another module, through a typedef of another module)" % len(PLACES))
