"""G07: nodes have exactly the extension statements of the modules that were asked for, under the name of the defining module.

Every kind of node, every place it may come from, every set of statements on it and every set of modules asked for."""
import itertools

from mc import core, genbind

# (module that defines them, prefix by which it is known, extension, argument or None)
STATEMENTS = [("ext", "x", "one", "v"), ("ext", "x", "two", "it's \"q\" {w} \\\\ %s"), ("ext", "x", "flag", None), ("d", "ext", "one", "of d"), ("more", "d", "one", ""), ("m", "m", "own", "mine")]
ASKED = [(), ("ext",), ("d",), ("more",), ("m",), ("ext", "d"), ("ext", "more", "d", "m"), ("none",), ("x",), ("t", "c")]
DEFS = {
    # one is named as keywords start, and as it is a prefix of another
    "ext": "module ext { yang-version 1.1; namespace 'urn:ext'; prefix x; extension one { argument a; } extension two { argument b; } extension flag; }\n",
    "d": "module d { yang-version 1.1; namespace 'urn:d'; prefix dd; extension one { argument a; } }\n",
    "more": "module more { yang-version 1.1; namespace 'urn:more'; prefix mo; extension one { argument a; } }\n",
}
HEADER = " import ext { prefix x; }\n import d { prefix ext; }\n import more { prefix d; }\n"


def lit(v):
    return '"%s"' % v.replace('"', '\\"')


def text(stmts):
    return "".join("%s:%s%s; " % (p, e, "" if a is None else " " + lit(a)) for _, p, e, a in stmts)


def meant(stmts, asked):
    out = {}
    for m, _, e, a in stmts:
        if m in asked:
            out.setdefault(m, {})[e] = None if a is None else a.replace("\\\\", "\\")
    return out or None


# kind of node: yang with %s for its statements, and the paths that have them
def kinds():
    return {
        "leaf": ("leaf n { type string; description 'e'; %s }", ["n"]),
        "leaf with default": ("leaf n { %s type uint8; default 3; }", ["n"]),
        "leaf of union": ("leaf n { type union { type int8; type string; } %s }", ["n"]),
        "leaf of enumeration": ("leaf n { type enumeration { enum a; } %s }", ["n"]),
        "leaf config false": ("leaf n { type string; %s config false; }", ["n"]),
        "leaf-list": ("leaf-list n { type string; %s }", ["n"]),
        "container": ("container n { %s leaf q { type string; } }", ["n"]),
        "presence container": ("container n { presence 'p'; leaf q { type string; } %s }", ["n"]),
        "list": ("list n { key k; %s leaf k { type string; } leaf q { type string; } }", ["n", "n/*"]),
        "key": ("list l { key n; leaf n { type string; %s } leaf q { type string; } }", ["l/*/n"]),
        "leaf in list": ("list l { key k; leaf k { type string; } leaf n { type string; %s } }", ["l/*/n"]),
        "list without key": ("list n { config false; %s leaf q { type string; } }", ["n", "n/*"]),
        "leaf of case": ("choice c { case a { leaf n { type string; %s } } case b { leaf q { type string; } } }", ["n"]),
        "short case": ("choice c { container n { %s leaf y { type string; } } leaf q { type string; } }", ["n"]),
        "choice, case and type": ("choice c { %s case a { %s leaf q { type string { %s length '1..2'; } } } }", []),
        "typedef and grouping": ("typedef t { type string; %s } grouping gg { %s leaf q { type t; } } uses gg { %s }", []),
    }


# place: files, from the text of a node; where its parent is found in the bindings
def places(node):
    m = lambda body, head="": "module m { yang-version 1.1; namespace 'urn:m'; prefix m;\n%s%s extension own { argument a; }\n%s }\n" % (HEADER, head, body)
    w = lambda body: "module w { yang-version 1.1; namespace 'urn:w'; prefix w;\n%s import m { prefix m; }\n%s }\n" % (HEADER, body)
    return {
        "top": ({"m": m(node)}, ("m",), "m", ""),
        "container": ({"m": m("container p { %s }" % node)}, ("m",), "m", "p"),
        "grouping": ({"m": m("grouping g { %s } container p { uses g; } " % node)}, ("m",), "m", "p"),
        "grouping used twice": ({"m": m("grouping g { %s } container o { uses g; } grouping h { container hc { uses g; } } container p { uses h; }" % node)}, ("m",), "m", "p/hc"),
        "augment": ({"m": m("container p { leaf z { type string; } } augment /m:p { %s }" % node)}, ("m",), "m", "p"),
        "augment of another module": ({"m": m("container p { leaf z { type string; } }"), "w": w("augment /m:p { %s }" % node)}, ("m", "w"), "m", "p"),
        "augment of a use": ({"m": m("grouping g { container z { leaf zz { type string; } } } container p { uses g { augment z { %s } } }" % node)}, ("m",), "m", "p/z"),
        "grouping of another module": ({"m": m("grouping g { %s }" % node), "w": w("container p { uses m:g; }")}, ("w",), "w", "p"),
        "submodule": ({"m": m("leaf z { type string; }", " include s;\n"), "s": "submodule s { yang-version 1.1; belongs-to m { prefix m; }\n%s container p { %s } }\n" % (HEADER, node.replace("m:own", "x:own"))}, ("m",), "m", "p") if "m:own" not in node else None,
        "operation": ({"m": m("rpc r { input { container p { %s } } }" % node)}, ("m",), "m_rpc", "r/input/p"),
        "notification": ({"m": m("notification r { container p { %s } }" % node)}, ("m",), "m_notification", "r/p"),
    }


def find(root, path):
    o = root
    for s in [x for x in path.split("/") if x]:
        if s == "*":
            if len(o):
                o = list(o.values())[0]
            elif o._yang_keys and o._yang_keys != "False":
                o = o.add("a")
            else:
                o = o[o.add()]
        else:
            o = getattr(o, s)
    return o


def everything(o, path=""):
    out = []
    for n in o._pyangbind_elements:
        e = getattr(o, n)
        p = (path + "/" + n).strip("/")
        out.append((p, e))
        kind = getattr(e, "_pybind_generated_by", None)
        if kind == "container":
            out += everything(e, p)
        elif kind == "YANGListType":
            x = find(e, "*")
            out.append((p + "/*", x))
            out += everything(x, p + "/*")
    return out


def explore(item):
    kind, split, cases = item
    res = core.new_result()
    for place, stmts, asked in cases:
        node, at = kinds()[kind]
        t = text(stmts)
        made = places(node.replace("%s", t))[place]
        if made is None or "_" in made[2] and (not split or "config false" in node) or "typedef" in node and "augment" in place:
            continue
        files, main, cls, parent = made
        flags = ("--presence", "--build-rpcs", "--build-notifications") + tuple("--interesting-extension=" + a for a in asked)
        want = {(parent + "/" + p).strip("/") for p in at}
        if place == "grouping used twice":
            want |= {"o/" + p for p in at}
        bad = None
        try:
            mod = genbind.build_split(dict(DEFS, **files), main=list(main), flags=flags, also=[cls] if "_" in cls else []) if split else genbind.build(dict(DEFS, **files), main=list(main), flags=flags)
            root = getattr(mod, cls)
            root = root() if isinstance(root, type) else root.m()  # operations are a package
            nodes = [(p, o) for p, o in everything(root)]
            for again in ("", " after values were assigned and unset"):
                for p, o in nodes:
                    exp = meant(stmts, asked) if p in want else None
                    got = o._extensions()
                    if got != exp and not (got == {} and exp is None):
                        bad = "%s has the extensions %r%s, expected %r" % (p, got, again, exp)
                        break
                if bad is None and want - {p for p, _ in nodes}:
                    bad = "no %s" % sorted(want - {p for p, _ in nodes})
                if bad:
                    break
                for p, o in nodes:
                    par, py = o._parent, p.split("/")[-1]
                    if o._yang_type not in ("container", "list") and py != "*" and par is not None and not o._is_keyval and getattr(o, "_pybind_generated_by", "") != "container":
                        if getattr(o, "_pybind_generated_by", None) == "TypedListType":
                            o.append("a")
                        else:
                            for v in ("a", 3):
                                try:
                                    getattr(par, "_set_" + py)(v)
                                    break
                                except ValueError:
                                    pass
                        if again:
                            getattr(par, "_unset_" + py)()
                nodes = [(p, o) for p, o in everything(root)]
        except Exception as e:
            bad = "raised %s: %s" % (type(e).__name__, str(e)[-400:])
        res["states"] += 1
        res["traces"] += 1
        res["transitions"] += len(files)
        if bad:
            res["viol"].append(("%s in %s, %s" % (kind, place, "packages" if split else "one file"), bad, {"flags": flags, "files": files}))
    core.bump(res, "%s%s" % (kind, " in packages" if split else ""), res["traces"])
    return res


def run(ctx):
    genbind.warm()
    n = len(STATEMENTS)
    sets = [(s,) for s in STATEMENTS] + [(), tuple(STATEMENTS), tuple(reversed(STATEMENTS))]
    if not ctx.quick:
        sets += list(itertools.permutations(STATEMENTS, 2)) + list(itertools.combinations(STATEMENTS, 3))
    else:
        sets += [(STATEMENTS[i], STATEMENTS[j]) for i in range(n) for j in range(i + 1, n)]
    place_names = list(places("leaf n { type string; }"))
    items, total = [], 0
    for kind in kinds():
        for split in (False, True):
            cases = []
            for place in place_names:
                for stmts in sets:
                    for asked in ASKED:
                        if ctx.quick:  # all places with all statements, all sets of statements at the top, each set of modules with both
                            full = len(stmts) == n and stmts[0] is STATEMENTS[0]
                            some = place == "container" and len(asked) in (1, 4) and not split
                            if not ((full and (len(asked) > 3 or place == "container") and not (split and len(asked) < 4)) or (some and asked[0] in ("ext", "d") and len(stmts) < 3)):
                                continue
                        cases.append((place, stmts, asked))
            total += len(cases)
            items += [(kind, split, cases[i : i + 10]) for i in range(0, len(cases), 10)]
    core.pmerge(ctx, explore, items)
    ctx.bound("%d kinds of nodes, %d places, %d sets of statements, %d sets of modules asked for: %d bindings, in one file and as packages%s" % (len(kinds()), len(place_names), len(sets), len(ASKED), total, " (quick: all places with all statements; all sets of statements in one place)" if ctx.quick else ""))
