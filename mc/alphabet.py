"""Operation alphabets derived from a schema: every node with good, differently spelled and bad inputs."""
from decimal import Decimal

from mc.tree import klex, unwrap
from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, IdRef, Int, Leafref, Reject, Str, Union

POOL = {
    Int: [5, "5", 2, 0, -1, 99999999999999999999999, "x", None],
    Str: ["a", "b", "ab", "", "a b", 'q"\'<&]', "\u00e9", "waytoolongforthis", None, 7],
    Enum: [],
    Bool: [True, "false", False, "true", "yes", 2, None],
    Empty: [True, "nope"],
    Binary: ["YQ==", b"bc", "", 5],
    Dec: ["1.5", Decimal("-2.25"), 0.5, 3, "0", "x", None],
    Bits: [],
    IdRef: [],
}


def pool(ty):
    ty = unwrap(ty)
    if isinstance(ty, Leafref):
        return pool(ty.target)
    if isinstance(ty, Union):
        out = []
        for m in ty.members:
            out += [v for v in pool(m)[:4] if not any(type(v) is type(o) and v == o for o in out)]
        return out + [v for v in ("x:y z", None)]
    if isinstance(ty, Enum):
        return [n for n, _ in ty.names] + ["no-such", None]
    if isinstance(ty, Bits):
        n = [n for n, _ in ty.names]
        return [n[0], " ".join(reversed(n)), n[-1], "", "no-such", 5]
    if isinstance(ty, IdRef):
        return sorted(ty.accepted) + ["no-such", "x:" + sorted(ty.accepted)[0]]
    if isinstance(ty, Int):
        lo, hi = ty.sets[-1][0][0], ty.sets[-1][-1][1]
        return [hi, lo, str(hi)] + [hi + 1, lo - 1, "x", None]
    return POOL[type(ty)]


def takes_text(ty):
    ty = unwrap(ty)
    if isinstance(ty, Leafref):
        return takes_text(ty.target)
    if isinstance(ty, Union):
        return any(takes_text(m) for m in ty.members)
    return isinstance(ty, Str)


def split(ty):
    """-> (accepted inputs, one per canonical value first, then other spellings), (refused inputs)"""
    good, alt, bad, seen = [], [], [], []
    texty = takes_text(ty)
    for v in pool(ty):
        if texty and not isinstance(v, str):
            continue  # Python's str() of other objects is taken, which no property is about
        try:
            c = ty.value(v)
        except Reject:
            bad.append(v)
            continue
        if c in seen:
            alt.append(v)
        else:
            seen.append(c)
            good.append(v)
    return good, alt, bad


def ops_for(schema, root=None, good=2, alt=0, bad=1, keys=2, badkeys=1, lls=("append", "assign", "pop", "remove"), llgood=2, unset=True, presence=True, keyset=True, only=None, internal=False, inplace=True):
    out = []

    def walk(node, path):
        for k in node.kids:
            p = path + (k.name,)
            if only is not None and not only(p, k):
                continue
            if k.kind == "leaf":
                g, a, b = split(k.ty)
                if node.kind == "list" and k.name in node.keys:
                    if keyset:
                        out.append(("set", p, g[0]))
                    continue
                for v in g[:good] + a[:alt] + b[:bad]:
                    out.append(("set", p, v) + ((True,) if internal or not k.is_config else ()))
                if unset:
                    out.append(("unset", p))
                if inplace and isinstance(unwrap(k.ty), Bits):
                    names = [n for n, _ in unwrap(k.ty).names]
                    out.extend(("bits", p, op, names[0]) for op in ("add", "discard", "remove"))
                    out.extend([("bits", p, "add", names[-1]), ("bits", p, "pop"), ("bits", p, "clear")])
                    out.extend(("bits", p, op, names[-1] + " " + names[0]) for op in ("update", "|=", "-=", "&=", "^="))
                    if bad:
                        out.extend(("bits", p, op, "no-such") for op in ("add", "discard", "remove"))
                        out.extend(("bits", p, op, names[-1] + " no-such") for op in ("update", "|=", "^="))
            elif k.kind == "leaf-list":
                g, a, b = split(k.ty)
                vals = g[:llgood] + a[:alt] + b[:bad]
                for op in lls:
                    if op in ("append", "remove"):
                        out.extend(("ll", p, op, v) for v in vals)
                    elif op == "assign":
                        out.append(("ll", p, op, list(reversed(g[:llgood]))))
                        out.append(("ll", p, op, []))
                        if b:
                            out.append(("ll", p, op, g[:1] + b[:1]))
                    elif op == "extend":
                        out.append(("ll", p, op, g[: llgood + 1]))
                        if b:
                            out.append(("ll", p, op, g[-1:] + b[:1]))
                    elif op in ("insert", "setitem"):
                        out.extend(("ll", p, op, i, v) for i in (0, 1) for v in vals)
                    elif op in ("pop", "delitem"):
                        out.extend(("ll", p, op, i) for i in (0, -1, 1))
                if unset:
                    out.append(("unset", p))
            elif k.kind == "list":
                texts = []
                if not k.keys:
                    out.extend([("add", p, {}), ("delete", p, "#0"), ("delete", p, "#1")])
                    texts = ["#0"]
                combos = key_combos(k, keys, badkeys) if k.keys else []
                for kv, ok in combos:
                    out.append(("add", p, kv))
                    if ok:
                        t = " ".join(klex(k.find(n).ty, k.find(n).ty.value(kv[n])) for n in k.keys)
                        texts.append(t)
                        out.append(("delete", p, t))
                if unset:
                    out.append(("unset", p))
                for t in texts[:1]:
                    walk(k, path + ((k.name, t),))
            else:
                if unset:
                    out.append(("unset", p))
                if presence and k.presence:
                    out.append(("presence", p))
                walk(k, p)

    walk(root or schema.root, ())
    return out


def key_combos(lst, keys, badkeys):
    """[({key: input}, acceptable)]"""
    per = [split(lst.find(n).ty) for n in lst.keys]
    out = []
    first = {n: per[i][0][0] for i, n in enumerate(lst.keys)}
    out.append((first, True))
    for j in range(1, keys):
        for i, n in enumerate(lst.keys):
            if j < len(per[i][0]):
                d = dict(first)
                d[n] = per[i][0][j]
                out.append((d, True))
    for i, n in enumerate(lst.keys):
        for b in per[i][2][:badkeys]:
            d = dict(first)
            d[n] = b
            out.append((d, False))
    return out
