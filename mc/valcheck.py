"""Exhaustive acceptance check of one type: every value of an alphabet, in every context a type can
appear in, from the unset and from the already-set state, against the reference type semantics."""
from mc import core, genbind
from mc.ytypes import Reject, Typedef, Union

MISSING = object()


def module_text(ty, contexts, extra="", default=None, ver="1.1"):
    decl = []
    for d in ty.decls():
        if d not in decl:
            decl.append(d)
    body = ""
    t = ty.text()
    if "leaf" in contexts:
        body += "leaf l { %s }\n" % t
    if "leaf-list" in contexts:
        body += "leaf-list ll { %s }\n" % t
    if "list" in contexts:
        body += "list lst { key k; leaf k { %s } leaf v { %s } }\n" % (t, t)
    if "union" in contexts:
        body += 'leaf u { type union { %s type enumeration { enum "zz-tail"; } } }\n' % t
    if "ulist" in contexts:
        body += 'leaf-list ul { type union { type enumeration { enum "zz-head"; } %s } }\n' % t
    if "state" in contexts:
        body += "container st { config false; leaf s { %s } }\n" % t
    return (
        'module m { yang-version %s; namespace "urn:m"; prefix m;\n%s\n%s\ncontainer c {\n%s} }'
        % (ver, "\n".join(decl), extra, body)
    )


def expect(ty, v):
    try:
        return ty.value(v)
    except Reject:
        return MISSING


def observe(ty, canon, o):
    """canonical value held by the real object o, viewed as the member that should hold it"""
    b = ty
    while isinstance(b, Typedef):
        b = b.eff
    if isinstance(b, Union):
        i, c = canon
        return (i, observe(b.members[i], c, o))
    return b.obs(o)


def short(x):
    r = repr(x)
    return r if len(r) < 90 else r[:60] + "...<%d>" % len(r)


def run_type(item):
    """item = (label, type, values, contexts, modules-extra, list_skip)"""
    label, ty, values, contexts = item[:4]
    opts = item[4] if len(item) > 4 else {}
    res = core.new_result()
    text = opts.get("modules") or {"m": module_text(ty, contexts, opts.get("extra", ""))}
    try:
        mod = genbind.build(text, main=["m"] if opts.get("modules") else None, flags=opts.get("flags", ()))
        c = mod.m().c
    except Exception as e:
        res["viol"].append(("%s: bindings unusable" % label, repr(e)[:2500], {"yang": text}))
        return res

    def bad(ctx, v, state, why):
        res["viol"].append(
            (
                "%s ctx=%s from=%s value=%s" % (label, ctx, state, short(v)),
                why,
                {"yang": text, "context": ctx, "state": state, "value": repr(v), "why": why},
            )
        )

    good = next((v for v in values if expect(ty, v) is not MISSING), None)
    good_c = expect(ty, good) if good is not None else MISSING
    utail = "zz-tail"

    def leafctx(ctx, cont, name, t, v, good, good_c):
        setter = getattr(cont, "_set_" + name)
        for state in ("unset", "set"):
            if state == "set" and good is None:
                continue
            getattr(cont, "_unset_" + name)()
            if state == "set":
                setter(good)
            want = expect(t, v)
            res["transitions"] += 1
            try:
                if ctx == "state":
                    setter(v)
                else:
                    setattr(cont, name, v)
                got = "accept"
            except ValueError:
                got = "reject"
            except Exception as e:
                got = "error %s" % type(e).__name__
            core.bump(res, "%s %s" % (ctx, got))
            cur = getattr(cont, name)
            if want is MISSING:
                if got != "reject":
                    bad(ctx, v, state, "must be refused with ValueError; got %s (now %s)" % (got, short(cur)))
                elif state == "set":
                    o = observe(t, good_c, cur)
                    if o != good_c or not cur._changed():
                        bad(ctx, v, state, "refused value changed the leaf: %s, expected %s" % (short(o), short(good_c)))
                elif cur._changed() or name in cont.get(filter=True):
                    bad(ctx, v, state, "refused value left the leaf marked as set")
            else:
                if got != "accept":
                    bad(ctx, v, state, "must be accepted; got %s" % got)
                    continue
                try:
                    o = observe(t, want, cur)
                except Exception as e:
                    o = "unreadable: %r" % e
                if o != want:
                    bad(ctx, v, state, "stored %s, expected %s" % (short(o), short(want)))
                if not cur._changed():
                    bad(ctx, v, state, "accepted value but the leaf does not report it was set")

    def llctx(ctx, name, t, v):
        for via in ("append", "assign"):
            getattr(c, "_unset_" + name)()
            want = expect(t, v)
            res["transitions"] += 1
            try:
                if via == "append":
                    getattr(c, name).append(v)
                else:
                    setattr(c, name, [v])
                got = "accept"
            except ValueError:
                got = "reject"
            except Exception as e:
                got = "error %s" % type(e).__name__
            core.bump(res, "%s %s" % (ctx, got))
            cur = getattr(c, name)
            if want is MISSING:
                if got != "reject":
                    bad(ctx, v, via, "must be refused with ValueError; got %s (now %s)" % (got, short(list(cur))))
                elif len(cur):
                    bad(ctx, v, via, "refused value is in the leaf-list")
            elif got != "accept":
                bad(ctx, v, via, "must be accepted; got %s" % got)
            elif len(cur) != 1 or observe(t, want, cur[0]) != want:
                bad(ctx, v, via, "stored %s, expected %s" % (short(list(cur)), short(want)))

    # the leaf context gets every value, the others the first `few` accepted and refused ones
    few = opts.get("few")
    sel = []
    if few:
        cnt = {True: 0, False: 0}
        for v in values:
            k = expect(ty, v) is MISSING
            if cnt[k] < few:
                cnt[k] += 1
                sel.append(v)
        sel += [v for v in opts.get("always", ()) if v not in sel]

    def contexts_for(v):
        if not few or any(v is x or (type(v) is type(x) and v == x) for x in sel):
            return contexts
        return contexts[:1]

    all_contexts = contexts
    for v in values:
        contexts = contexts_for(v)
        if "leaf" in contexts:
            leafctx("leaf", c, "l", ty, v, good, good_c)
        if "state" in contexts:
            leafctx("state", c.st, "s", ty, v, good, good_c)
        if "union" in contexts:
            ut = Union(ty, _tail)
            leafctx("union", c, "u", ut, v, utail, (1, "zz-tail"))
        if "leaf-list" in contexts:
            llctx("leaf-list", "ll", ty, v)
        if "ulist" in contexts:
            llctx("ulist", "ul", Union(_head, ty), v)
        if "list" in contexts and v not in opts.get("list_skip", ("",)):
            c._unset_lst()
            want = expect(ty, v)
            res["transitions"] += 1
            try:
                c.lst.add(v)
                got = "accept"
            except KeyError:
                got = "reject"
            except TypeError:
                got = "reject" if not isinstance(v, (str, int, bytes)) else "error TypeError"
            except Exception as e:
                got = "error %s" % type(e).__name__
            core.bump(res, "list %s" % got)
            if want is MISSING:
                if got != "reject":
                    bad("list", v, "empty", "must be refused with KeyError; got %s" % got)
                elif len(c.lst):
                    bad("list", v, "empty", "refused key is in the list: %s" % list(c.lst.keys()))
            elif got != "accept":
                bad("list", v, "empty", "must be accepted; got %s" % got)
            else:
                ent = list(c.lst.values())
                o = observe(ty, want, ent[0].k) if len(ent) == 1 else "%d entries" % len(ent)
                if o != want:
                    bad("list", v, "empty", "key leaf holds %s, expected %s" % (short(o), short(want)))
        res["states"] += len(contexts)
        res["traces"] += len(contexts)
        contexts = all_contexts
    res["samples"].append({"type": label, "yang": text["m"].splitlines()[-3:], "values": [short(x) for x in values[:8]]})
    return res


from mc.ytypes import Enum  # noqa

_tail = Enum("zz-tail")
_head = Enum("zz-head")
ALL = ("leaf", "leaf-list", "list", "union", "ulist", "state")
