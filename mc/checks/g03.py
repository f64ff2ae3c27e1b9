"""G03: an identityref takes exactly the identities derived from its base, in every derivation forest over every arrangement
of modules, and says in RFC 7951 which module an identity is of."""
import itertools
import json

from mc import core, genbind


def dags(n):
    """every acyclic choice of bases for n identities: [(bases of 0, bases of 1, ...)], bases are sets of indices"""
    others = [[b for r in range(n) for b in itertools.combinations([j for j in range(n) if j != i], r)] for i in range(n)]
    for combo in itertools.product(*others):
        done = set()
        while True:
            more = {i for i in range(n) if i not in done and set(combo[i]) <= done}
            if not more:
                break
            done |= more
        if len(done) == n:
            yield combo


def closure(dag, base):
    """everything derived from base, directly or not (an identity is not derived from itself)"""
    out = set()
    while True:
        more = {i for i in range(len(dag)) if i not in out and (base in dag[i] or out & set(dag[i]))}
        if not more:
            return out
        out |= more


NAMES = ("m", "a", "b")
IMPORTS = {"m": ("a", "b"), "a": ("b",), "b": ()}

# label: (own prefix of each module, prefix under which x imports y)
PREFIXES = {
    "own prefixes": ({"m": "m", "a": "a", "b": "b"}, lambda x, y: y),
    "prefixes that are not names": ({"m": "pm", "a": "pa", "b": "pb"}, lambda x, y: "p" + y),
    "imported under other prefixes": ({"m": "pm", "a": "pa", "b": "pb"}, lambda x, y: x + "-" + y),
    "prefixes that are names of other modules": ({"m": "m", "a": "b", "b": "a"}, lambda x, y: "i" + y),
    "one prefix for all": ({"m": "p", "a": "p", "b": "p"}, lambda x, y: "i" + y),
    "one import prefix for two modules": ({"m": "m", "a": "a", "b": "b"}, lambda x, y: {"ma": "x", "mb": "y", "ab": "x"}[x + y]),
}


def bases(f):
    """the bases of the leaves of a forest (that of several bases is their first, as the tests of the repository have it)"""
    return [(i,) for i in range(len(f.dag))]


def leaf_name(f, bs):
    return "%s-%s" % (f.tag, "-".join(map(str, bs)))


class Forest:
    def __init__(self, tag, dag, place, names):
        self.tag, self.dag, self.place, self.names = tag, dag, place, names

    def visible(self):
        return all(self.place[b] == self.place[i] or self.place[b] in IMPORTS[self.place[i]] for i, bs in enumerate(self.dag) for b in bs)

    def distinct(self):
        return len(set(zip(self.place, self.names))) == len(self.names)

    def ref(self, user, i, imp):
        return self.names[i] if user == self.place[i] else "%s:%s" % (imp(user, self.place[i]), self.names[i])


def home(f, bs, m):
    """whether module m has a leaf with these bases"""
    return m == "m" or (m in [f.place[b] for b in bs] and all(f.place[b] == m or f.place[b] in IMPORTS[m] for b in bs))


def texts(forests, cfg):
    own, imp = PREFIXES[cfg]
    out = {}
    for m in NAMES:
        t = "module %s { yang-version 1.1; namespace 'urn:%s'; prefix %s;\n" % (m, m, own[m])
        for o in IMPORTS[m]:
            t += "import %s { prefix %s; }\n" % (o, imp(m, o))
        for f in forests:
            for i, bs in enumerate(f.dag):
                if f.place[i] == m:
                    t += "identity %s { %s}\n" % (f.names[i], "".join("base %s; " % f.ref(m, b, imp) for b in bs))
        t += "container c-%s {\n" % m
        for f in forests:
            for bs in bases(f):
                if home(f, bs, m):
                    t += "leaf %s { type identityref { %s} }\n" % (leaf_name(f, bs), "".join("base %s; " % f.ref(m, i, imp) for i in bs))
        out[m] = t + "leaf fill { type string; } } }\n"
    return out


def spellings(f, i, cfg, user):
    """(text, the identities it may denote)"""
    own, imp = PREFIXES[cfg]
    quals = {}
    for m in NAMES:
        for q in {m, own[m]} | {imp(u, m) for u in NAMES if m in IMPORTS[u]}:
            quals.setdefault(q, set()).add(m)
    n = f.names[i]
    yield n, [{j for j in range(len(f.dag)) if f.names[j] == n}]
    for q, ms in sorted(quals.items()):
        # the name of a module comes before a prefix that is the same
        yield "%s:%s" % (q, n), [{j for j in range(len(f.dag)) if f.names[j] == n and f.place[j] in k} for k in ({q} & set(NAMES), ms)]
    yield "nope:" + n, [set()]


def explore(item):
    label, forests, cfg, main, only = item
    res = core.new_result()
    t = texts(forests, cfg)
    try:
        mod = genbind.build(t, main=main)
    except Exception as e:
        if len(forests) > 1:  # narrow it down
            for k in (forests[: len(forests) // 2], forests[len(forests) // 2 :]):
                r = explore((label, k, cfg, main, only))
                for key in ("states", "transitions", "traces"):
                    res[key] += r[key]
                res["viol"] += r["viol"]
                if r["viol"]:
                    break
            return res
        res["viol"].append(("%s: bindings unusable" % label, str(e)[-2000:], {"yang": t}))
        return res
    from pyangbind.lib import pybindJSON, serialise

    own, imp = PREFIXES[cfg]
    for user in NAMES:
        if main and user not in main:
            continue
        root = getattr(mod, user)()
        cont = getattr(root, "c_" + user)
        for f in forests:
            for bs in bases(f):
                if not home(f, bs, user):
                    continue
                leaf = leaf_name(f, bs).replace("-", "_")
                derived = set.intersection(*(closure(f.dag, base) for base in bs))
                res["states"] += 1
                seen = set()
                for i in range(len(f.dag)):
                    for text, ids in spellings(f, i, cfg, user):
                        if text in seen:
                            continue
                        seen.add(text)
                        want = next((k & derived for k in ids if k & derived), set())
                        res["transitions"] += 1
                        where = "%s: base %s of %s, leaf in %s" % (
                            label,
                            " and ".join("%s:%s" % (f.place[base], f.names[base]) for base in bs),
                            "; ".join("%s:%s<-%s" % (f.place[j], f.names[j], ",".join(f.names[b] for b in f.dag[j])) for j in range(len(f.dag))),
                            user,
                        )
                        try:
                            setattr(cont, leaf, text)
                            got = True
                        except ValueError:
                            got = False
                        except Exception as e:
                            got = repr(e)
                        core.bump(res, "%s %s" % (cfg, got))
                        if got is not bool(want):
                            kind = "qualified" if ":" in text else "plain"
                            res["viol"].append(("%s: %s %s name" % (label, "accepts" if got else "refuses", kind), "%s: %r %s" % (where, text, "accepted" if got else "refused"), {"yang": t}))
                            continue
                        if got and len(want) == 1:
                            (j,) = want
                            if len([x for x in derived if f.names[x] == f.names[j]]) > 1 and ":" not in text:
                                continue  # which one a plain name means is not said
                            full = "%s:%s" % (f.place[j], f.names[j])
                            ok = (full, f.names[j]) if f.place[j] == user else (full,)
                            for step in "set", "loaded":
                                doc = json.loads(pybindJSON.dumps(cont, mode="ietf"))
                                v = {k.split(":")[-1]: x for k, x in doc.items()}[leaf_name(f, bs)]
                                if v not in ok:
                                    res["viol"].append(("%s: encoded as another" % label, "%s: %s as %r, RFC 7951 value %r, expected %r" % (where, step, text, v, full), {"yang": t}))
                                    break
                                if step == "set":
                                    text = v
                                    try:
                                        serialise.pybindJSONDecoder.load_ietf_json({"%s:%s" % (user, leaf_name(f, bs)): v}, None, None, obj=cont)
                                    except Exception as e:
                                        res["viol"].append(("%s: not loaded" % label, "%s: RFC 7951 value %r not loaded: %r" % (where, v, e), {"yang": t}))
                                        break
                if leaf in dir(cont):
                    getattr(cont, "_unset_" + leaf)()
                res["traces"] += 1
    return res


def run(ctx):
    items = []
    single = [Forest("s%d" % n, d, ("m",) * 4, ["s%d%s" % (n, c) for c in "wxyz"]) for n, d in enumerate(dags(4))]
    for k in range(0, len(single), 70):
        items.append(("one module", single[k : k + 70], "own prefixes", None, None))
    across, twins = [], []
    for n, d in enumerate(dags(3)):
        for place in itertools.product(NAMES, repeat=3):
            f = Forest("t%d%s" % (n, "".join(place)), d, place, ["t%d%s%s" % (n, "".join(place), c) for c in "xyz"])
            if f.visible():
                across.append(f)
            for names in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 0)):
                g = Forest("u%d%s%s" % (n, "".join(place), "".join(map(str, names))), d, place, ["u%d%s%d" % (n, "".join(place), c) for c in names])
                if g.visible() and g.distinct():
                    twins.append(g)
    # names that are shared must be shared within one forest only
    for g in twins:
        g.names = [g.tag + "-" + x[-1] for x in g.names]
    for cfg in PREFIXES:
        for main in [None, ["m"]] if ctx.quick else [None, ["m"], ["b", "a", "m"], ["m", "b", "a"], ["a", "m", "b"]]:
            for k in range(0, len(across), 120):
                items.append(("modules, %s%s" % (cfg, ", " + " ".join(main) if main else ""), across[k : k + 120], cfg, main, None))
            for k in range(0, len(twins), 120):
                items.append(("same names, %s%s" % (cfg, ", " + " ".join(main) if main else ""), twins[k : k + 120], cfg, main, None))
    core.pmerge(ctx, explore, items)
    ctx.assumptions.append("identityref types have one base (the tests of the repository demand that only the first of several counts)")
    ctx.bound("identityrefs with every base, given every spelling of every identity")
    ctx.bound("all %d derivation graphs of 4 identities in one module, in every order of declaration" % len(single))
    ctx.bound("all %d derivation graphs of 3 identities over every placement in 3 modules, and %d with repeated names, under %d arrangements of prefixes, with all or some modules on the command line" % (len(across), len(twins), len(PREFIXES)))
