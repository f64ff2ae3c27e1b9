"""X02: a path expression finds exactly the nodes that it selects, however it is spelled.

Over trees with nested lists of one to three keys: every schema path, with every subset of the keys compared to every
present (and an absent) value, in every style of writing predicates and names, absolute, relative to every node, as a
string and as parts; judged by selecting from the live tree."""
import itertools

from mc import core, tree
from mc.checks.x01 import live
from mc.explore import Spec, built
from mc.tree import C, LL, Leaf, Lst, Mod, Schema
from mc.ytypes import Dec, Enum, Int, Str


def schema():
    one = lambda n: Leaf(n, Str())
    return Schema(
        "paths",
        Mod(
            "m",
            C(
                "c",
                one("a"),
                Lst(
                    "l",
                    "k",
                    one("k"),
                    one("v"),
                    Lst("n", "j i-d", Leaf("j", Enum("on", "off")), Leaf("i-d", Int("uint8")), one("v"), LL("z", Str())),
                    C("q", one("y"), Lst("l", "k", one("k"))),
                ),
                Lst("t", "x.y b c", Leaf("x.y", Str()), Leaf("b", Int("uint8")), Leaf("c", Dec(1)), one("v"), user=True),
                C("o", one("a"), C("a-nd", one("and"))),
            ),
            C("c2", one("a")),
            prefix="mp",
        ),
        Mod("w", imports=(("m", "m"),), augments=[("/m:c", [one("wa"), Lst("wl", "k", one("k"), one("wv"))]), ("/m:c/m:l", [C("wn", one("v"))])], prefix="wp"),
        xpath=True,
    )


AWKWARD = ["a b", "it's", 'q"q', "]", "x/y", "[k='a']", "and", "@k", "=", "a' and k='b", "..", "current()", "m:a", "''\"\"", "é", " ", "1"]


def trees():
    """[(name, operations)]"""
    base = [("add", ("c", "l"), {"k": k}) for k in ("a", "b", "d")]
    for k in ("a", "b"):
        base += [("add", ("c", ("l", k), "n"), {"j": j, "i-d": i}) for j, i in (("on", 1), ("off", 1), ("on", 2))]
        base += [("add", ("c", ("l", k), "q", "l"), {"k": x}) for x in ("a", "z")]
    base += [("add", ("c", "t"), {"x.y": x, "b": b, "c": d}) for x, b, d in (("p", "7", "1.5"), ("p", "8", "1.5"), ("r", "7", "-0.5"))]
    base += [("add", ("c", "wl"), {"k": k}) for k in ("b", "a")]
    base += [("set", ("c", "a"), "b"), ("set", ("c", "o", "a"), "a"), ("set", ("c", "o", "a-nd", "and"), "1.5")]
    some = base + [("delete", ("c", "l"), "a"), ("add", ("c", "l"), {"k": "a"}), ("delete", ("c", ("l", "b"), "n"), "off 1"), ("delete", ("c", "t"), "p 7 1.5")]
    awk = [("add", ("c", "l"), {"k": k}) for k in AWKWARD] + [("add", ("c", "t"), {"x.y": k, "b": "7", "c": "0.5"}) for k in AWKWARD if k != " "]
    return [("empty", []), ("full", base), ("changed", some), ("awkward", awk)]


# ---- predicates: [(key, value)] -> text, in every style; None when the style cannot say it
def lit(v, q):
    if q in v:
        q = {"'": '"', '"': "'"}[q]
        if q in v:
            return None
    return q + v + q


def concat(v):
    return "concat(%s)" % ", ".join("'%s'" % p if "'" not in p else '"%s"' % p for p in v.replace("'", "\0'\0").split("\0") if p) if v else None


def style(quote, form):
    def f(pairs, pfx):
        out = []
        for k, v in pairs:
            if quote == "none":
                if not v or any(c in v for c in " '\"]") or "current()" in v or v.startswith("concat("):
                    return None
                t = v
            elif quote == "concat":
                t = concat(v)
            else:
                t = lit(v, quote)
            if t is None:
                return None
            k = pfx + k
            out.append({"plain": "%s=%s", "and": "%s=%s", "at": "@%s=%s", "spaces": " %s = %s ", "many": "%s=%s"}[form] % (k, t))
        if form == "many":
            return "".join("[%s]" % o for o in out)
        return "[%s]" % " and ".join(out)

    f.label = "%s quotes, %s" % (quote, form)
    return f


STYLES = [style(q, f) for q in ("'", '"', "none", "concat") for f in ("plain", "at", "spaces", "many")]


def schema_paths(sch, path=()):
    for k in sch.kids:
        if k.kind == "list" and not k.keys:
            continue
        p = path + (k,)
        yield p
        if k.kind in ("container", "list"):
            yield from schema_paths(k, p)


def selections(node, nodes, names):
    """the predicates of a list step: subsets of the keys x values, in both orders"""
    if node.kind != "list":
        return [()]
    vals = {}
    for st, o in nodes:
        if isinstance(st[-1], tuple) and tuple(s[0] if isinstance(s, tuple) else s for s in st) == names:
            for k, v in st[-1][1]:
                if v not in vals.setdefault(k, []):
                    vals[k].append(v)
    out = [()]
    for m in range(1, len(node.keys) + 1):
        for ks in itertools.permutations(node.keys, m):
            for vs in itertools.product(*[vals.get(k, []) + ["no-such"] for k in ks]):
                out.append(tuple(zip(ks, vs)))
    return out


def select(nodes, expr):
    """the reference: expr is [(name, ((key, value), ...))]"""
    out = []
    for st, o in nodes:
        if len(st) != len(expr):
            continue
        for s, (name, preds) in zip(st, expr):
            keys = dict(s[1]) if isinstance(s, tuple) else {}
            if (s[0] if isinstance(s, tuple) else s) != name or any(keys.get(k) != v for k, v in preds):
                break
        else:
            out.append(o)
    return out


def render(expr, sty, pfx):
    """-> [parts] or None"""
    parts = []
    for name, preds in expr:
        t = ""
        if preds:
            t = sty(preds, pfx)
            if t is None:
                return None
        parts.append(pfx + name + t)
    return parts


# [(caller, steps up to /c, {reference: how to get at it})]
CURRENT = [
    (("c", "o", "a"), 2, {"../a": lambda r: str(r.c.o.a), "../../a": lambda r: str(r.c.a), "../a-nd/and": lambda r: str(r.c.o.a_nd.and_)}),
    (("c", "o", "a-nd"), 2, {"and": lambda r: str(r.c.o.a_nd.and_), "../a": lambda r: str(r.c.o.a)}),
    (("c", "a"), 1, {"../a": lambda r: str(r.c.a), "../o/a": lambda r: str(r.c.o.a)}),
]

_T = {}


def _one(item):
    tname, pi = item
    spec, ops = _T[tname]
    res = core.new_result()
    real, model = spec.start()
    for op in ops:
        assert spec.apply(real, model, op, check=False) is not None, op
    nodes = live(spec.schema.root, real.root, ())
    path = list(schema_paths(spec.schema.root))[pi]
    names = tuple(k.name for k in path)
    ph = real.helper

    def ask(kind, q, want, caller=None, expr=None):
        res["transitions"] += 1
        try:
            got = ph.get(q, caller=caller) if caller is not None else ph.get(q)
        except Exception as e:
            got = e
        ok = isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want))
        if not ok:
            d = repr(got)[:200] if not isinstance(got, list) else "%d nodes, expected %d%s" % (len(got), len(want), " (or in another order)" if len(got) == len(want) else "")
            res["viol"].append(
                (
                    "%s: /%s %s" % (tname, "/".join(names), kind),
                    "%r%s gives %s" % (q, " from %r" % (caller,) if caller else "", d),
                    {"tree": tname, "expression": repr(q), "caller": repr(caller)},
                )
            )
        return ok

    # absolute: every predicate of every list step; all styles for one list step at a time
    sels = [selections(k, nodes, names[: i + 1]) for i, k in enumerate(path)]
    lists = [i for i, k in enumerate(path) if k.kind == "list"]
    first = ("'", "plain")
    exprs = set()
    for combo in itertools.product(*[sels[i] if len(sels[i]) < 40 or i == len(path) - 1 or len(lists) == 1 else sels[i][:40] for i in range(len(path))]):
        exprs.add(combo)
    n = 0
    for combo in sorted(exprs, key=repr):
        expr = list(zip(names, combo))
        want = select(nodes, expr)
        n += 1
        for si, sty in enumerate(STYLES):
            if sum(bool(c) for c in combo) > 1 and si not in (0, 6, 11):
                continue
            if not any(combo) and si:
                break
            for pfx in ("", "m:", "wp:"):
                if pfx and si not in (0, 5, 15):
                    continue
                parts = render(expr, sty, pfx)
                if parts is None:
                    continue
                ask("string, %s, prefix %r" % (sty.label, pfx), "/" + "/".join(parts), want)
                if si < 4:
                    ask("parts, %s, prefix %r" % (sty.label, pfx), list(parts), want)
                    ask("absolute parts, %s, prefix %r" % (sty.label, pfx), [""] + list(parts), want)
        # get_unique and get_list
        parts = render(expr, STYLES[0], "")
        if parts is not None:
            for p in ("/" + "/".join(parts), parts):
                try:
                    u = [ph.get_unique(p)]
                except Exception as e:
                    u = e
                if isinstance(u, list) != (len(want) == 1) or isinstance(u, list) and u[0] is not want[0]:
                    res["viol"].append(("%s: get_unique /%s" % (tname, "/".join(names)), "get_unique(%r) gives %r although %d nodes match" % (p, u, len(want)), {}))
            if path[-1].kind == "list" and not combo[-1]:
                parents = select(nodes, expr[:-1])
                try:
                    got = ph.get_list("/" + "/".join(parts))
                except Exception as e:
                    got = e
                if len(parents) == 1 and got is not getattr(parents[0], path[-1].py):
                    res["viol"].append(("%s: get_list /%s" % (tname, "/".join(names)), "get_list gives %r" % (got,), {}))
                if len(parents) != 1 and not isinstance(got, Exception):
                    res["viol"].append(("%s: get_list /%s" % (tname, "/".join(names)), "get_list of %d parents gives %r" % (len(parents), got), {}))
    # relative: from every live node, up to every common ancestor, and down with at most the last list step predicated
    for st, o in nodes:
        caller = o._path()
        for up in range(1, len(st) + 1):
            base = st[: len(st) - up]
            if tuple(s[0] if isinstance(s, tuple) else s for s in base) != names[: len(base)] or len(base) >= len(names):
                continue
            down = names[len(base) :]
            opts = [()] * len(down)
            for i in reversed(range(len(down))):
                if path[len(base) + i].kind == "list":
                    opts = [None if j == i else () for j in range(len(down))]
                    break
            for sel in sels[len(base) + opts.index(None)][:12] if None in opts else [()]:
                combo = [sel if x is None else x for x in opts]
                expr = [(s[0], s[1]) if isinstance(s, tuple) else (s, ()) for s in base] + list(zip(down, combo))
                want = select(nodes, expr)
                parts = render(list(zip(down, combo)), STYLES[0], "m:" if up % 2 else "")
                if parts is None:
                    continue
                ask("relative from /%s" % "/".join(s[0] if isinstance(s, tuple) else s for s in st), "/".join([".."] * up + parts), want, caller)
        # below the node itself
        if names[: len(st)] == tuple(s[0] if isinstance(s, tuple) else s for s in st) and len(names) > len(st):
            expr = [(s[0], s[1]) if isinstance(s, tuple) else (s, ()) for s in st] + [(n, ()) for n in names[len(st) :]]
            ask("relative below", "/".join(["."] + list(names[len(st) :])), select(nodes, expr), caller)
    # keys given by reference to another leaf: relative to the caller, which need not exist itself
    if len(lists) == 1 and names[0] == "c":
        i = lists[0]
        keys = path[i].keys
        for ks in [ks for m in range(1, len(keys) + 1) for ks in itertools.permutations(keys, m)]:
            for caller, ups, leafs in CURRENT:
                for ref in itertools.product(leafs, repeat=len(ks)):
                    vals = [leafs[r](real.root) for r in ref]
                    expr = [(n, ()) for n in names]
                    expr[i] = (names[i], tuple(zip(ks, vals)))
                    want = select(nodes, expr)
                    for pfx, eq in (("", "%s=%s"), ("m:", "%s = %s")):
                        pred = " and ".join(eq % (pfx + k, "current()/" + r) for k, r in zip(ks, ref))
                        parts = [".."] * ups + [pfx + n + ("[%s]" % pred if j == i else "") for j, n in enumerate(names[1:], 1)]
                        ask("by reference from /%s" % "/".join(caller), "/".join(parts), want, list(caller))
                        ask("by reference from /%s, parts" % "/".join(caller), list(parts), want, list(caller))
    core.bump(res, "%s /%s" % (tname, "/".join(names)), n)
    res["states"] += n
    res["traces"] += 1
    res["samples"] = [{"tree": tname, "path": "/" + "/".join(names), "selections": n}]
    return res


def run(ctx):
    s = schema()
    built(s)
    _T.clear()
    items = []
    for name, ops in trees():
        _T[name] = (Spec(name, s, [], 0), ops)
        items += [(name, i) for i in range(len(list(schema_paths(s.root))))]
    core.pmerge(ctx, _one, items)
    ctx.bound("every schema path of a 3-module tree, every subset and order of keys x present and absent values, %d predicate styles, 3 prefixes, strings and parts, relative from every node" % len(STYLES))
