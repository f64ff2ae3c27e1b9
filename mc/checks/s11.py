"""S11: assigning a container, list, entry or leaf-list copies exactly its set content, and shares nothing with it.

For every source tree reachable by a bounded history, every target tree, and every node: the node of the target is set to
that of the source; then every operation of the alphabet is applied to the target and to the source, in turn."""
from mc import core, schemas, tree
from mc.alphabet import ops_for
from mc.checks.s02 import mutable
from mc.checks.x01 import Registry
from mc.explore import Spec, built
from mc.tree import C, Case, Ch, Disabled, ERRORS, LL, Leaf, Lst, MC, MLeaf, MList, MLL, Mod, Refuse, Schema, fresh, label, mask, op_text, pathtext
from mc.ytypes import Bits, Dec, Int, Str


def twin(xpath=False):
    """two siblings of the same structure, and a list of them"""
    one = lambda n: Leaf(n, Str("1"))
    body = lambda: (
        Leaf("d", Int("uint8", "1..9"), default="5"),
        LL("z", Str("1")),
        Ch("ch", one("x"), Case("b", C("y", Leaf("f", Bits("r", "w"))))),
        C("p", one("v"), presence=True),
        Lst("l", "k", one("k"), one("v"), C("q", presence=True)),
    )
    return Schema("twin", Mod("m", C("c", C("a", *body()), C("b", *body()), C("h", one("e")))), xpath=xpath)


SCHEMAS = (twin, schemas.basic, schemas.choices, schemas.nested, schemas.presences, schemas.typed, schemas.bitsy, mutable, schemas.modules, schemas.orders, schemas.keyless)


def clone(m, sch):
    """a copy of a model node, as the node `sch`"""
    n = fresh(sch)
    if isinstance(m, MLeaf):
        n.v = m.v
    elif isinstance(m, MLL):
        n.vals = list(m.vals)
    elif isinstance(m, MList):
        n.ents = {t: entry(e, sch) for t, e in m.ents.items()}
    else:
        n = entry(m, sch)
    return n


def entry(m, sch):
    n = MC(sch)
    for k in sch.kids:
        n.kids[k.name] = clone(m.kids[k.name], k)
    n.present = m.present
    return n


def same_shape(a, b):
    if a.kind != b.kind or getattr(a, "keys", ()) != getattr(b, "keys", ()):
        return False
    if a.kind in ("container", "list"):
        return len(a.kids) == len(b.kids) and all(x.name == y.name and same_shape(x, y) for x, y in zip(a.kids, b.kids))
    return a.ty.text() == b.ty.text()


def copies(schema):
    """[(kind, destination path, source path)]; paths into lists name the entry"""
    out = []

    def walk(n, path):
        for k in n.kids:
            p = path + (k.name,)
            if k.is_config and not (n.kind == "list" and k.name in n.keys):
                out.append(("copy", p, p))
            if k.kind == "container":
                walk(k, p)
            elif k.kind == "list" and k.keys:
                texts = [o[2] for o in ops_for(schema, root=n, only=lambda q, c: c is k, bad=0, badkeys=0, unset=False) if o[0] == "delete"]
                e = path + ((k.name, texts[0]),)
                out.append(("setitem", e, e))
                out.append(("append", e, e))
                if len(k.keys) == 1 and len(texts) > 1:
                    out.append(("setitem", path + ((k.name, texts[1]),), e))
                walk(k, e)

    walk(schema.root, ())
    if schema.label == "twin":
        for n in schema.root.find("c").find("a").kids:
            out.append(("copy", ("c", "b", n.name), ("c", "a", n.name)))
        out += [("copy", ("c", "b"), ("c", "a")), ("setitem", ("c", "b", ("l", "b")), ("c", "a", ("l", "a"))), ("append", ("c", "b", ("l", "a")), ("c", "a", ("l", "a")))]
        out.append(("copy", ("c", "h"), ("c", "a")))
    return out


def model_copy(dst, src, kind, dp, sp):
    try:
        s = src.node(sp)
    except Disabled:
        raise
    chain = dst.chain(dp)
    cont, step = chain[-1]
    if kind == "copy":
        sch = cont.kids[step].sch
        if not same_shape(s.sch, sch):
            raise Refuse("shape")
        if s.sch.kind == "leaf" and s.v is None:
            raise Disabled()  # the value of a leaf that is not set
        new = clone(s, sch)
        dst.touch(chain)
        cont.kids[step] = new
        if sch.kind == "container":
            new.present = bool(sch.presence)
        return
    name, text = step
    lst = cont.kids[name]
    if kind == "append":
        text = " ".join(tree.klex(s.kids[n].sch.ty, s.kids[n].v[0]) for n in lst.sch.keys)
    new = entry(s, lst.sch)
    if kind == "setitem":
        for n, t in zip(lst.sch.keys, [text] if len(lst.sch.keys) == 1 else text.split(" ")):
            new.kids[n].v = (lst.sch.find(n).ty.value(t),)
    dst.touch(chain)
    dst.chain(dp)[-1][0].kids[name].ents[text] = new


def real_copy(dst, src, kind, dp, sp):
    s = src.node(sp)
    o, sch = dst.cont(dp)
    step = dp[-1]
    if kind == "copy":
        setattr(o, sch.find(step).py, s)
        return
    lst = getattr(o, sch.find(step[0]).py)
    if kind == "append":
        lst.append(s)
    else:
        ks = [k for i, k in enumerate(lst) if label(sch.find(step[0]), i, k) == step[1]]
        lst[ks[0] if ks else step[1]] = s


def content(snap, root=True):
    return mask(snap, changed=False)


def check(schema, real, model):
    d = tree.diff(content(real.snap()), content(model.snap()))
    if d:
        return d
    if real.view(True) != model.view(None, True):
        return "get(filter=True) gives %s, expected %s" % (tree.short(real.view(True)), tree.short(model.view(None, True)))
    if real.helper is not None:
        v = Registry.extra(_reg(schema), real, model, None)
        if v:
            return "%s: %s" % v[0]
    return None


class _reg:
    def __init__(self, schema):
        self.schema = schema


def touches(hist, path):
    names = [s[0] if isinstance(s, tuple) else s for s in path]
    return any([s[0] if isinstance(s, tuple) else s for s in op[1]][: len(names)] == names for op in hist)


_J = {}


def _explore(item):
    label_, hi, ti = item
    spec, hists, targets, cps = _J[label_]
    res = core.new_result()
    schema = spec.schema
    hist, target = hists[hi], targets[ti]

    def build(h):
        r, m = spec.start()
        for op in h:
            try:
                spec.apply(r, m, op, check=False)
            except ERRORS:
                pass
        return r, m

    for cp in cps:
        for mode in (1,) if cp[1] == cp[2] else (1, 0):  # 0: within one and the same instance
            if len(hist) == 2 and not spec.deep and not touches(hist, cp[2]):
                continue  # nothing to copy that a shorter history does not have
            ra, ma = build(hist)
            rb, mb = build(target) if mode else (ra, ma)
            if not mode and ti:
                continue
            what = "%s %s := %s" % (cp[0], pathtext(cp[1]), pathtext(cp[2]) if mode else "own " + pathtext(cp[2]))

            def report(aspect, msg, more=""):
                res["viol"].append(
                    (
                        "%s: %s: %s" % (spec.label, what, aspect),
                        "%s\nsource: %s\ntarget: %s%s" % (msg, "; ".join(map(op_text, hist)) or "(empty)", "; ".join(map(op_text, target)) or "(empty)", more),
                        {"yang": schema.texts(), "copy": what, "source": [op_text(o) for o in hist], "target": [op_text(o) for o in target]},
                    )
                )

            try:
                model_copy(mb, ma, *cp)
                want = "accepted"
            except Disabled:
                continue
            except Refuse:
                want = "refused"
            try:
                real_copy(rb, ra, *cp)
                got = "accepted"
            except ERRORS as e:
                got, err = "refused", e
            res["transitions"] += 1
            core.bump(res, "%s %s %s" % (spec.label, cp[0], want))
            if got != want:
                report("outcome", "the assignment is %s, expected %s%s" % (got, want, "" if got == "accepted" else ": " + repr(err)[:200]))
                continue
            d = check(schema, rb, mb)
            if d:
                report("target", "after the assignment the target is wrong: " + d)
                continue
            d = mode and check(schema, ra, ma)
            if d:
                report("source", "the assignment changed the source: " + d)
                continue
            bad = False
            if len(hist) != 2 or spec.deep:  # pairs only add source trees, not new objects to share
                for side in (0, 1) if mode else (0,):
                    (r, m), (ro, mo) = ((rb, mb), (ra, ma))[:: 1 if side == 0 else -1]
                    other = content(mo.snap())
                    for op in spec.ops:
                        try:
                            v = spec.apply(r, m, op, check=False)
                        except ERRORS:
                            v = None
                        if v is None:
                            continue
                        res["transitions"] += 1
                        d = mode and tree.diff(content(ro.snap()), other)
                        if d:
                            report("then %s on the %s" % (op_text(op), ("target", "source")[side]), "the other side has changed: %s" % d)
                            bad = True
                            break
                    d = not bad and tree.diff(content(r.snap()), content(m.snap()))
                    if d:
                        report("then every operation on the %s" % ("target", "source")[side], "the result is wrong: %s" % d)
                        bad = True
                    if bad:
                        break
    res["states"] += 1
    res["traces"] += len(cps)
    return res


def sources(spec, depth):
    """histories leading to distinct model states, shortest first"""
    from mc.tree import Model

    def run(h):
        m = Model(spec.schema)
        for op in h:
            getattr(m, op[0])(*op[1:])
        return m

    seen, out, level = {core.h(Model(spec.schema).snap())}, [()], [()]
    for _ in range(depth):
        nxt = []
        for h in level:
            for op in spec.ops:
                if op[0] in ("unset", "delete") or op[1][:2] == ("c", "b") and spec.schema.label == "twin":
                    continue
                try:
                    m = run(h + (op,))
                except (Disabled, Refuse):
                    continue
                k = core.h(m.snap())
                if k not in seen:
                    seen.add(k)
                    nxt.append(h + (op,))
        out += nxt
        level = nxt
    return out


def full(spec, second=False):
    """a history that sets everything (the other cases of choices first, when `second`)"""
    ops = [o for o in spec.ops if o[0] in ("set", "ll", "add", "presence")]
    return tuple(reversed(ops)) if second else tuple(ops)


def run(ctx):
    _J.clear()
    items = []
    for f in SCHEMAS:
        for x in (False, True):
            s = f(x)
            ops = ops_for(s, good=1, bad=0, badkeys=0, keys=1, llgood=1, lls=("append", "pop"), keyset=False, internal=True)
            spec = Spec(s.label + ("/xpath" if x else ""), s, ops, 0)
            try:
                built(s)
            except Exception as e:
                ctx.violation("%s: bindings unusable" % s.label, repr(e)[:2000])
                continue
            alt = ops_for(s, good=2, bad=0, badkeys=0, keys=2, llgood=2, lls=("append",), keyset=False, internal=True, unset=False)
            hists = sources(spec, 2 if not ctx.quick or not x else 1) + [tuple(ops), tuple(alt), tuple(reversed(alt))]
            targets = [(), tuple(ops), tuple(alt) + tuple(alt)]
            spec.deep = not ctx.quick
            _J[spec.label] = (spec, hists, targets, copies(s))
            items += [(spec.label, h, t) for h in range(len(hists)) for t in range(len(targets)) if t != 1 or len(hists[h]) != 2 or spec.deep]
            ctx.bound("%s: %d source trees (all histories up to length 2, and full ones), %d targets, %d assignments, then all %d operations on either side (quick: not after sources of two operations)" % (spec.label, len(hists), len(targets), len(copies(s)), len(ops)))
    core.pmerge(ctx, _explore, items)
