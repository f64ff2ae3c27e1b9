"""Run-time of the checks: reporting, known findings, evidence, process pool."""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("MC_SCRATCH") or "/tmp"
REPO = os.environ.get("MC_REPO", "/repo")
NPROC = int(os.environ.get("MC_PROCS", "8"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def h(obj):
    return hashlib.md5(repr(obj).encode("utf8", "backslashreplace")).hexdigest()


def load_known(pid):
    """-> {key: description}.  Lines:  finding: property=<id> key=<<key>> <description>"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN, encoding="utf8"):
        line = line.rstrip("\n")
        if not line.startswith("finding: property=%s " % pid):
            continue
        rest = line[len("finding: property=%s " % pid):]
        if not rest.startswith("key=<<") or ">>" not in rest:
            continue
        key, desc = rest[len("key=<<"):].split(">>", 1)
        out[key] = desc.strip()
    return out


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.viol = []  # (key, message, replay)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.bounds = []
        self.outcomes = {}
        self.extra = {}
        self.assumptions = []

    # -- reporting ---------------------------------------------------------
    def violation(self, key, msg, replay=None):
        self.viol.append((str(key), str(msg), replay))

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def bound(self, text):
        self.bounds.append(text)

    def merge(self, res):
        """merge a worker result dict"""
        self.states += res.get("states", 0)
        self.transitions += res.get("transitions", 0)
        self.traces += res.get("traces", 0)
        for k, v in res.get("outcomes", {}).items():
            self.outcome(k, v)
        for s in res.get("samples", []):
            self.sample(s)
        for v in res.get("viol", []):
            self.viol.append(tuple(v))

    def finish(self):
        known = load_known(self.pid)
        hit, new = {}, {}
        for key, msg, replay in self.viol:
            if key in known:
                hit[key] = known[key]
            elif key not in new:
                new[key] = (msg, replay)
        for key in sorted(hit):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, hit[key], key))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "exhaustive": True,
                "bounds": self.bounds,
                "distinct_outcomes": dict(sorted(self.outcomes.items())),
                "samples": self.samples or ["(none)"],
                "known_findings_reproduced": sorted(hit),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w", encoding="utf8", errors="backslashreplace") as fh:
            json.dump(ev, fh, indent=1, default=repr)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.pid))
        print(
            "%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
            % (self.pid, self.tier, self.states, self.transitions, self.traces, len(self.outcomes), ev["wall_s"])
        )
        if os.environ.get("MC_DUMP"):
            with open(os.environ["MC_DUMP"], "w", errors="backslashreplace") as fh:
                for key in sorted(new):
                    fh.write("%s\t%s\n" % (key, new[key][0].replace("\n", " | ")[:600]))
        if not new:
            print("OK property=%s held on everything explored" % self.pid)
            return 0
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, key in enumerate(sorted(new, key=lambda k: (len(k), k))):
            msg, replay = new[key]
            if n >= 10:
                print("... and %d more violations" % (len(new) - n))
                break
            path = os.path.join(rdir, "%s-%s.json" % (self.pid, h(key)[:10]))
            with open(path, "w", encoding="utf8", errors="backslashreplace") as fh:
                json.dump({"property": self.pid, "key": key, "message": msg, "replay": replay}, fh, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   key: %s" % key)
            for ln in str(msg).splitlines()[:12]:
                print("   " + ln[:400])
        return 1


def new_result():
    return {"states": 0, "transitions": 0, "traces": 0, "outcomes": {}, "samples": [], "viol": []}


def bump(res, name, n=1):
    res["outcomes"][name] = res["outcomes"].get(name, 0) + n


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang("no answer within the time limit")


ITEM_LIMIT = int(os.environ.get("MC_ITEM_LIMIT", "600"))


def _call(fn, item):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(ITEM_LIMIT)
        try:
            return fn(item)
        finally:
            signal.alarm(0)
    except BaseException as e:  # noqa - whatever the code under test does becomes a report
        res = new_result()
        res["viol"].append(
            (
                "harness-exception %s in %s" % (type(e).__name__, getattr(fn, "__name__", "?")),
                "unexpected exception while exploring\n" + "".join(traceback.format_exception(e))[-3000:],
                {"item": repr(item)[:2000]},
            )
        )
        return res


def pmap(fn, items, procs=None):
    """Deterministic parallel map over forked workers; items are inherited, results are pickled."""
    items = list(items)
    procs = min(procs or NPROC, max(1, len(items)))
    if procs == 1:
        return [_call(fn, i) for i in items]
    counter = mp.get_context("fork").Value("i", 0)
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for w in range(procs):
        out = os.path.join(SCRATCH, "w%d-%d-%d.pkl" % (os.getpid(), w, next(_serial)))
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                acc = {}
                while True:
                    with counter.get_lock():
                        i = counter.value
                        counter.value += 1
                    if i >= len(items):
                        break
                    acc[i] = _call(fn, items[i])
                with open(out, "wb") as fh:
                    pickle.dump(acc, fh)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(rc)
        kids.append((pid, out))
    results = {}
    for pid, out in kids:
        _, st = os.waitpid(pid, 0)
        if st == 0:
            with open(out, "rb") as fh:
                results.update(pickle.load(fh))
            os.unlink(out)
    lost = []
    for i in range(len(items)):
        if i not in results:
            res = new_result()
            res["viol"].append(("worker-died", "a worker process ended without an answer", {"item": repr(items[i])[:2000]}))
            lost.append(i)
            results[i] = res
    return [results[i] for i in range(len(items))]


_serial = itertools.count()


def pmerge(ctx, fn, items, procs=None):
    for res in pmap(fn, items, procs):
        ctx.merge(res)
