"""M01: threads that work on instances of their own, under every schedule with a bounded number of preemptions.

Two real threads are run one at a time: a function that Python calls before each line (thorough: each bytecode instruction) of the library
and of the generated code hands over to the other thread at the chosen points."""
import os
import sys
import threading

from mc import core, serial, tree
from mc.explore import built
from mc.tree import C, Ch, Case, ERRORS, LL, Leaf, Lst, Mod, Real, Schema
from mc.checks.x03 import ref
from mc.values import IDS
from mc.ytypes import Binary, Bits, Bool, Dec, Empty, Enum, Int, Str, Union, derive

MON = sys.monitoring
TOOL = 4
EVENTS = {"line": MON.events.LINE, "call": MON.events.PY_START, "opcode": MON.events.INSTRUCTION}
LIMIT = 2.0  # seconds a thread may take for its turn before the other one is resumed too (it waits for a lock)


class Schedule:
    """thread 0 runs up to its point `a`, then thread 1 up to its point `b` (None: its end), then 0 to its end, then 1"""

    def __init__(self, f, g, a, b, by="line", visits=1):
        self.work, self.stop, self.by, self.visits = (f, g), [a, b], by, visits
        self.count, self.where = [0, 0], [None, None]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.result = [None, None]
        self.waited, self.watching = False, None
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise core.Hang("two threads on separate instances do not come to an end")

    def thread(self, i):
        self.go[i].acquire(timeout=30)
        if self.stop[i] is not None:
            self.watch(i)
        try:
            self.result[i] = self.work[i]()
        except Exception as e:
            self.result[i] = ("harness", repr(e))
        finally:
            if self.watching == i:
                self.unwatch()
            self.go[1 - i].release()

    def watch(self, i):
        """report the points thread i reaches; the other thread is not running"""
        self.watching = i
        ident, count, stop, visits, seen = threading.get_ident(), self.count, self.stop[i], self.visits, {}

        def point(code, position, *_):
            name = code.co_filename
            if not (name.startswith("<bindings") or "/pyangbind/" in name):
                return MON.DISABLE
            if threading.get_ident() != ident or self.watching != i:
                return None
            place = (code, position)
            n = seen[place] = seen.get(place, 0) + 1
            if n <= visits:
                count[i] += 1
                if count[i] == stop:
                    self.unwatch()
                    self.where[i] = "%s:%s (%s)" % (os.path.basename(name), position if self.by == "line" else "%d+%d" % (code.co_firstlineno, position), code.co_name)
                    self.go[1 - i].release()
                    if not self.go[i].acquire(timeout=LIMIT):
                        self.waited = True
                    return None
            return MON.DISABLE if n >= visits else None

        MON.register_callback(TOOL, EVENTS[self.by], point)
        MON.set_events(TOOL, EVENTS[self.by])
        MON.restart_events()

    def unwatch(self):
        self.watching = None
        MON.set_events(TOOL, 0)


def wide(xpath=False):
    """a node of every kind and type"""
    pat = derive("pat", Str("1..4", "[a-c]+"), Str("1..4", "[a-c]+"))
    return Schema(
        "wide",
        Mod(
            "m",
            C(
                "c",
                Leaf("i", Int("uint8", "1..9")),
                Leaf("s", pat, default="abc"),
                Leaf("d", Dec(2, "0..9")),
                Leaf("t", Bits("r", "w"), default="w"),
                Leaf("y", Binary()),
                Leaf("u", Union(Int("uint8", "1..5"), Dec(1), Enum("auto"))),
                LL("ll", Union(Int("int8"), Str("1"))),
                Lst("l", "k", Leaf("k", Str("1..2")), Leaf("v", Dec(1), default="1.5"), C("n", Leaf("b", Bool()), presence=True)),
                Ch("ch", Case("x", Leaf("x", Str("1")), C("xc", Leaf("z", Enum("on", "off")))), Case("y", LL("yl", Str("1")))),
            ),
            imports=("o",),
            body="identity here { base o:root; } identity sub { base here; }",
        ),
        Mod("o", body="identity root; identity far { base root; }"),
        Mod("p", imports=("o",), body="identity third { base o:root; }"),
        Mod("w", imports=("m", "o"), augments=[("/m:c", [C("wc", LL("zl", IDS))])]),
        xpath=xpath,
    )


def linked():
    s = Str("1")
    return Schema(
        "linked",
        Mod(
            "m",
            C("t", Lst("l", "k", Leaf("k", s), Leaf("v", s)), LL("ll", s)),
            C("r", Leaf("key", ref("/m:t/m:l/m:k", s)), Leaf("rel", ref("../../t/ll", s)), LL("refs", ref("/t/l/k", s))),
        ),
        xpath=True,
    )


# two variants of everything, such that what one thread does is not what the other one does
BASE = {
    "wide": [
        [("add", ("c", "l"), {"k": "a"}), ("set", ("c", "x"), "x"), ("ll", ("c", "wc", "zl"), "append", "third")],
        [("add", ("c", "l"), {"k": "a"}), ("add", ("c", "l"), {"k": "e"}), ("set", ("c", "u"), "auto"), ("ll", ("c", "yl"), "append", "Y"), ("ll", ("c", "wc", "zl"), "append", "far")],
    ],
    "linked": [
        [("add", ("t", "l"), {"k": "a"}), ("ll", ("t", "ll"), "append", "b"), ("set", ("r", "key"), "a")],
        [("add", ("t", "l"), {"k": "x"}), ("add", ("t", "l"), {"k": "y"}), ("ll", ("t", "ll"), "append", "c"), ("set", ("r", "key"), "y")],
    ],
}


def both(*op):
    return (op, op)


OPS = {
    "wide": [
        both("new"),
        (("set", ("c", "i"), 5), ("set", ("c", "i"), 9)),
        (("set", ("c", "i"), 77), ("set", ("c", "i"), 78)),
        (("set", ("c", "s"), "cab"), ("set", ("c", "s"), "xyz")),
        (("set", ("c", "d"), "2.25"), ("set", ("c", "d"), "3.5")),
        (("set", ("c", "t"), "w r"), ("set", ("c", "t"), "r")),
        (("set", ("c", "y"), "YQ=="), ("set", ("c", "y"), "YWI=")),
        (("set", ("c", "u"), "2.5"), ("set", ("c", "u"), 4)),
        (("ll", ("c", "ll"), "append", "x"), ("ll", ("c", "ll"), "append", "7")),
        (("add", ("c", "l"), {"k": "b"}), ("add", ("c", "l"), {"k": "bad"})),
        (("delete", ("c", "l"), "a"), ("delete", ("c", "l"), "e")),
        (("ll", ("c", "yl"), "append", "y"), ("set", ("c", "xc", "z"), "on")),
        (("ll", ("c", "wc", "zl"), "append", "far"), ("ll", ("c", "wc", "zl"), "append", "third")),
        both("presence", ("c", ("l", "a"), "n")),
        both("unset", ("c",)),
        both("dump", "json"),
        both("dump", "ietf"),
        both("dump", "xml"),
        both("load", "json"),
        both("load", "ietf"),
        both("load", "xml"),
        both("get"),
        both("copy", "c"),
    ],
    "linked": [
        both("new"),
        (("add", ("t", "l"), {"k": "b"}), ("add", ("t", "l"), {"k": "z"})),
        (("delete", ("t", "l"), "a"), ("delete", ("t", "l"), "x")),
        (("ll", ("t", "ll"), "append", "c"), ("ll", ("t", "ll"), "append", "d")),
        (("set", ("r", "rel"), "b"), ("set", ("r", "rel"), "c")),
        (("set", ("r", "rel"), "c"), ("set", ("r", "rel"), "b")),
        (("ll", ("r", "refs"), "append", "a"), ("ll", ("r", "refs"), "append", "y")),
        (("lookup", "/t/l[k='a']/v"), ("lookup", "/m:t/m:l[m:k='x']/k")),
        both("lookup", "//k"),
        both("load", "ietf"),
    ],
}
# what the other thread does, apart from the same operation
OTHERS = {"wide": [0, 2, 7, 9, 16, 18], "linked": [1, 5, 9]}
HEAVY = ("load", "copy")
SCHEMAS = {"wide": wide, "linked": linked}
_DOC = {}


def prepare(label, v):
    """a fresh instance in the base state -> Real"""
    sch = _SCH[label]
    helper = None
    if sch.xpath:
        from pyangbind.lib.xpathhelper import YANGPathHelper

        helper = YANGPathHelper()
    r = Real(sch, built(sch), helper)
    r.variant = v
    for op in BASE[label][v]:
        getattr(r, op[0])(*op[1:])
    return r


def perform(r, op):
    """-> something that describes what happened, without reference to objects"""
    try:
        if op[0] == "new":
            return tree.rsnap(r.schema.root, r.schema.new(r.mod, r.helper and type(r.helper)()))
        if op[0] == "dump":
            return serial.FORMATS[op[1]].dump(r.root)
        if op[0] == "load":
            return tree.rsnap(r.schema.root, serial.FORMATS[op[1]].load(_DOC[r.schema.label, r.variant, op[1]], r.mod, r.schema, **serial.helper_for(r.schema)))
        if op[0] == "get":
            return repr(r.root.get()) + repr(r.root.get(filter=True))
        if op[0] == "lookup":
            return ["/".join(o._path()) + "=" + str(o) for o in r.helper.get(op[1])]
        if op[0] == "copy":
            setattr(r.root, op[1], prepare(r.schema.label, 1 - r.variant).root.c)
            return "ok"
        getattr(r, op[0])(*op[1:])
        return "ok"
    except ERRORS as e:
        return "refused: %s %s" % (type(e).__name__, str(e)[:2000])


def observe(r):
    out = [r.snap(), repr(r.view(False))]
    if r.helper is not None:
        out.append(sorted("/".join(o._path()) for o in r.helper.get("//*") if hasattr(o, "_path")))
    return out


def text(op):
    return tree.op_text(op) if len(op) > 1 and isinstance(op[1], tuple) else " ".join(op)


_SCH, _SOLO = {}, {}


def explore(item):
    """one pair of operations"""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "schedules")
    label, i, j, by, visits, second = item
    p, q = OPS[label][i][0], OPS[label][j][1]
    res = core.new_result()
    key = "%s: %s while another thread is in %s" % (label, text(q), text(p))

    def once(a, b):
        x, y = prepare(label, 0), prepare(label, 1)
        s = Schedule(lambda: perform(x, p), lambda: perform(y, q), a, b, by, visits)
        res["traces"] += 1
        res["transitions"] += 2
        for v, (r, op) in enumerate(((x, p), (y, q))):
            want = _SOLO[label, v, (i, j)[v]]
            got = (s.result[v], observe(r))
            if got != want:
                if got[0] != want[0]:
                    d = "its result is %s, alone it is %s" % (tree.short(got[0]), tree.short(want[0]))
                else:
                    d = "its instance is not as when it is alone: %s" % tree.short(tree.diff(got[1][0], want[1][0]) or got[1][1:])
                at = ["%s %s" % (n, w) for n, w in zip((a, b), s.where)]
                res["viol"].append(
                    (
                        key,
                        "%s: %s\nschedule: %s stops at %s %s; %s runs to %s; each continues to its end" % (text(op), d, text(p), by, at[0], text(q), "its end" if b is None else "%s %s" % (by, at[1])),
                        {"first": text(p), "second": text(q), "at": at, "by": by},
                    )
                )
                return None
        if s.waited:
            core.bump(res, "a thread waited for the other")
        return s

    a = 0
    while True:
        a += 1
        s = once(a, None)
        if s is None or s.count[0] < a:  # it came to its end before that point
            break
        b = 0
        while second:
            b += 1
            s = once(a, b)
            if s is None:
                return res
            if s.count[1] < b:
                break
    res["states"] += a
    core.bump(res, "%s %s" % (label, p[0]))
    return res


def run(ctx):
    for label, f in SCHEMAS.items():
        sch = _SCH[label] = f()
        built(sch)
        for v in (0, 1):
            r = prepare(label, v)
            for fmt in ("json", "ietf", "xml"):
                _DOC[label, v, fmt] = serial.FORMATS[fmt].dump(r.root)
        for k, ops in enumerate(OPS[label]):
            for v, op in enumerate(ops):
                got = []
                for _ in range(2):
                    x = prepare(label, v)
                    got.append((perform(x, op), observe(x)))
                if got[0] != got[1]:
                    ctx.violation("%s: %s alone" % (label, text(op)), "performed twice on equal instances it gives %r and %r" % (got[0], got[1]), {})
                _SOLO[label, v, k] = got[0]
    items = []
    for label, ops in OPS.items():
        for i in range(len(ops)):
            heavy = ops[i][0][0] in HEAVY
            for j in range(len(ops)) if not ctx.quick else sorted({i, *OTHERS[label]}):
                if not ctx.quick:
                    items += [(label, i, j, "line", 3, False), (label, i, j, "opcode", 1, False)]
                else:
                    items.append((label, i, j, "call" if i != j else "line", 1, False))
                if i == j and not heavy or not ctx.quick:
                    items.append((label, i, j, "call", 1, True))
    items.sort(key=lambda x: OPS[x[0]][x[1]][0][0] not in HEAVY)
    core.pmerge(ctx, explore, items)
    for by, second in sorted({(x[3], x[5]) for x in items}):
        n = len([x for x in items if (x[3], x[5]) == (by, second)])
        ctx.bound(
            "%d pairs of operations on separate instances, all schedules with %s at any %s (the first %d times it is reached)"
            % (n, "two preemptions" if second else "one preemption", "bytecode instruction" if by == "opcode" else by, 3 if by == "line" and not ctx.quick else 1)
        )
    ctx.assumptions.append("C code of Python, lxml and regular expressions is atomic (it holds the interpreter lock)")
