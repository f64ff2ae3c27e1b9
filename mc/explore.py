"""Breadth-first exploration of operation histories: every history is replayed on the real bindings and on the model."""
import pickle

from mc import core, tree
from mc.tree import Disabled, ERRORS, Model, Real, Refuse, diff, mask, op_text

_BUILT = {}
REFUSED = "refused"  # result of an operation that was refused and verified to have no effect


def built(schema):
    """bindings of a schema, generated once per process family"""
    key = (schema.label, tuple(sorted(schema.texts().items())), tuple(schema.flags))
    if key not in _BUILT:
        _BUILT[key] = schema.build()
    return _BUILT[key]


class Spec:
    """what to explore: schema, operation alphabet, and what is asserted in every reached state"""

    masks = {}  # arguments of tree.mask
    views = False  # also compare get(filter=True) and get()
    noop_on_refusal = True
    disabled_is_clean = True  # a disabled operation has touched neither side
    merge_from = 2  # histories shorter than this are all kept apart

    def __init__(self, label, schema, ops, depth, **kw):
        self.label, self.schema, self.ops, self.depth = label, schema, ops, depth
        for k, v in kw.items():
            setattr(self, k, v)

    def start(self):
        helper = None
        if self.schema.xpath:
            from pyangbind.lib.xpathhelper import YANGPathHelper

            helper = YANGPathHelper()
        return Real(self.schema, built(self.schema), helper), Model(self.schema)

    def apply(self, real, model, op, check=True):
        """-> None (disabled) or list of violations [(aspect, message)]; mutates both"""
        name, args = op[0], op[1:]
        before = None
        try:
            getattr(model, name)(*args) if hasattr(model, name) else self.model_op(model, op)
            want = "ok"
        except Refuse as e:
            want = "refused"
            if check:
                before = self.observe(real)
        except Disabled:
            return None
        try:
            getattr(real, name)(*args) if hasattr(real, name) else self.real_op(real, op)
            got = "ok"
        except ERRORS as e:
            got = "refused"
            err = e
        except Exception as e:
            got = "crashed"
            err = e
        if not check:
            return []
        if got != want:
            return [("outcome", "operation %s, expected %s%s" % (got, want, "" if got == "ok" else " (%s: %s)" % (type(err).__name__, str(err)[:300])))]
        if want == "refused" and self.noop_on_refusal:
            after = self.observe(real)
            if after != before:
                return [("refusal", "a refused operation changed the tree: " + str(obs_diff(after, before)))]
            return self.check(real, model, op, want) or REFUSED
        return self.check(real, model, op, want)

    def observe(self, real):
        return (real.snap(), repr(real.view(True)))

    def digest(self, real, model):
        return core.h((real.snap(), model.snap()))

    def check(self, real, model, op, want):
        out = []
        d = diff(mask(real.snap(), **self.masks), mask(model.snap(), **self.masks))
        if d:
            out.append(("tree", d))
        if self.views and not out:
            for filt in (True, False):
                rv, mv = real.view(filt), model.view(None, filt)
                if rv != mv:
                    out.append(("view filter=%s" % filt, "get(filter=%s) gives %s, expected %s" % (filt, tree.short(vd(rv, mv)), tree.short(vd(mv, rv)))))
                    break
        out += self.extra(real, model, op) or []
        return out

    def extra(self, real, model, op):
        return []

    def replay(self, hist):
        real, model = self.start()
        for i in hist:
            self.apply(real, model, self.ops[i], check=False)
        return real, model


def vd(a, b):
    """the part of view a that differs from b"""
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: vd(v, b[k]) if k in b else v for k, v in a.items() if k not in b or b[k] != v}
    return a


def obs_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return diff(x, y) if isinstance(x, tuple) else "%s ... was %s" % (x, y)
    return None


_SPECS = {}


def _level(item):
    """expand a chunk of histories by every operation"""
    label, hists = item
    spec = _SPECS[label]
    res = core.new_result()
    new = []
    for hist in hists:
        real = None
        refused = []  # operations refused, without effect, since the state was built: it is still the same state
        for i, op in enumerate(spec.ops):
            if real is None:
                real, model = spec.replay(hist)
                refused = []
            v = spec.apply(real, model, op)
            if v is None:
                if not spec.disabled_is_clean:
                    real = None
                continue
            if v == REFUSED:
                refused.append(op)
                v = []
                reusable = True
            else:
                reusable = False
                if v and refused:  # is it due to the refused operations?
                    real, model = spec.replay(hist)
                    v2 = spec.apply(real, model, op)
                    if v2 and v2 != REFUSED:
                        v = v2
                    else:
                        v = [(a, m + "\nonly after the refused " + "; ".join(op_text(o) for o in refused)) for a, m in v]
            res["transitions"] += 1
            core.bump(res, "%s %s" % (spec.label, op[1] if isinstance(op[0], int) else op[0]))
            if v:
                for aspect, msg in v:
                    res["viol"].append(
                        (
                            "%s: after %s: %s %s" % (spec.label, op_text(op), aspect, msg.split(":")[0][:80]),
                            msg + "\nhistory: " + "; ".join(op_text(spec.ops[j]) for j in hist) + " THEN " + op_text(op),
                            {"spec": spec.label, "history": [op_text(spec.ops[j]) for j in hist + (i,)], "yang": spec.schema.texts()},
                        )
                    )
                real = None
                continue
            if reusable:
                continue
            new.append((spec.digest(real, model), hist + (i,)))
            real = None
    res["new"] = new
    return res


def run_specs(ctx, specs):
    """explore all specs level by level, all specs of one level in parallel"""
    _SPECS.clear()
    frontier, seen, levels = {}, {}, {}
    for s in specs:
        assert s.label not in _SPECS, s.label
        _SPECS[s.label] = s
    builts = {}
    for s in specs:
        try:
            built(s.schema)
            real, model = s.start()
        except Exception as e:
            ctx.violation("%s: bindings unusable" % s.schema.label, repr(e)[:2500], {"yang": s.schema.texts()})
            continue
        v = s.check(real, model, None, "ok")
        for aspect, msg in v:
            ctx.violation("%s: initial state: %s" % (s.label, aspect), msg, {})
        frontier[s.label] = [()]
        seen[s.label] = {s.digest(real, model)}
        levels[s.label] = [1]
        ctx.states += 1
    depth = 0
    while True:
        depth += 1
        items = []
        for s in specs:
            hs = frontier.get(s.label, [])
            if depth > s.depth or not hs:
                frontier[s.label] = []
                continue
            n = max(1, min(40, len(hs) // 16 or 1))
            for i in range(0, len(hs), n):
                items.append((s.label, hs[i : i + n]))
        if not items:
            break
        nxt = {s.label: [] for s in specs}
        rs = core.pmap(_level, items)
        for (label, _), r in zip(items, rs):
            ctx.merge(r)
            spec = _SPECS[label]
            for dg, hist in r.get("new", []):
                if dg in seen[label]:
                    if depth >= spec.merge_from:
                        continue
                else:
                    seen[label].add(dg)
                    ctx.states += 1
                nxt[label].append(hist)
                ctx.traces += 1
        for label in nxt:
            if nxt[label]:
                levels[label].append(len(nxt[label]))
                ctx.sample({"schema": label, "history": [op_text(_SPECS[label].ops[j]) for j in nxt[label][-1]]})
        frontier = nxt
    for s in specs:
        ctx.bound("%s: %d operations, all histories up to length %d (merged on equal observable trees from length %d); frontier sizes %s" % (s.label, len(s.ops), s.depth, s.merge_from, levels.get(s.label)))
