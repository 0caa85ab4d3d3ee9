"""Obligations, verdicts, evidence."""
import json, os, sys, time, traceback
from . import terms as t
from .mirflow import Eng, Dead, St
from .facts import Facts

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REG = {}


def prop(pid, groups, explanation, rule):
    def deco(f):
        REG[pid] = (f, groups, explanation, rule)
        return f
    return deco


class Undecided(Exception):
    pass


class OutOfTime(BaseException):
    pass


START = time.time()


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.obl, self.samples, self.undecided, self.viol = [], [], [], []
        self.analysed = {}     # what -> set of names
        self.assumptions = []
        self._facts, self._eng = {}, {}
        self.tier = os.environ.get("VERIF_TIER", "quick")

    # facts / engines
    def facts(self, group):
        if group not in self._facts:
            self._facts[group] = Facts(group)
        return self._facts[group]

    def eng(self, group, cls=Eng):
        return cls(self.facts(group))

    def note(self, what, *names):
        self.analysed.setdefault(what, set()).update(names)

    def fn(self, group, path, required=True):
        """the key of the (only, non-generic) function with this path"""
        F = self.facts(group)
        ks = [f["key"] for f in F.by_path.get(path, ()) if not f["poly"]]
        if not ks:
            ks = [f["key"] for f in F.by_path.get(path, ())]
        if not ks:
            if required and not F.errors and group == "base":
                self.violate("missing " + path, path, "the public entry point %s no longer exists" % path)
            raise Undecided("no function " + path)
        self.note("functions", path)
        return ks[0]

    def find(self, group, pred, what):
        F = self.facts(group)
        ks = [k for k, f in F.fns.items() if f["local"] and pred(k, f)]
        if len(ks) != 1:
            raise Undecided("%s: %d candidates" % (what, len(ks)))
        self.note("functions", F.fns[ks[0]]["path"])
        return ks[0]

    # verdicts
    def bounded(self, n):
        """in a process of its own: a share of the memory, and a time for each obligation"""
        import resource, signal
        try:
            pages = os.sysconf("SC_PHYS_PAGES") * os.sysconf("SC_PAGE_SIZE")
            lim = int(pages * 0.85 / n)
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            if hard == resource.RLIM_INFINITY or hard > lim:
                resource.setrlimit(resource.RLIMIT_AS, (max(lim, 3 << 30), hard))

            def stop(*_):
                raise OutOfTime("not decided in time")
            signal.signal(signal.SIGALRM, stop)
            self.limit = (time.time(), 300, START + 780) if self.tier != "thorough" else (time.time(), 3600, START + 36000)
        except (ValueError, OSError):
            self.limit = None

    def obligation(self, name, f):
        """run one proof obligation; it discharges by returning"""
        n = len(self.viol)
        limit = getattr(self, "limit", None)
        try:
            if limit:
                import signal
                left = int(min(limit[1], limit[2] - time.time()))
                if left <= 0:
                    raise OutOfTime("not begun: the time is used up")
                signal.alarm(left)
            try:
                r = f()
            finally:
                if limit:
                    signal.alarm(0)
        except Undecided as e:
            self.undecided.append("%s: %s" % (name, e))
            self.obl.append((name, "undecided"))
            return None
        except Dead:
            self.undecided.append("%s: every path diverges" % name)
            self.obl.append((name, "undecided"))
            return None
        except OutOfTime as e:
            self.undecided.append("%s: %s" % (name, e))
            self.obl.append((name, "undecided"))
            return None
        except RecursionError:
            self.undecided.append("%s: recursion limit of the analysis" % name)
            self.obl.append((name, "undecided"))
            return None
        except Exception as e:
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            self.undecided.append("%s: %s: %s" % (name, type(e).__name__, e))
            self.obl.append((name, "undecided"))
            return None
        self.obl.append((name, "violated" if len(self.viol) > n else "discharged"))
        return r

    def parallel(self, names, f, label="%s"):
        """an obligation f(name) per name, in several processes; -> {name: what f returned (plain data)}"""
        import pickle
        names = list(names)
        n = min(len(names), int(os.environ.get("VF_JOBS") or os.cpu_count() or 1))
        pipes = []
        sys.stdout.flush()
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid:
                os.close(wr)
                pipes.append((pid, r, names[w::n]))
                continue
            try:
                os.close(r)
                self.obl, self.undecided, self.viol, self.analysed, self.samples = [], [], [], {}, []
                out = {}
                self.bounded(n)
                for x in names[w::n]:
                    out[x] = self.obligation(label % x, lambda: f(x))
                data = pickle.dumps((self.obl, self.undecided, self.viol, self.analysed, self.samples, out))
                with os.fdopen(wr, "wb") as p:
                    p.write(data)
            except BaseException:
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
            finally:
                os._exit(0)
        res = {}
        for pid, r, mine in pipes:
            with os.fdopen(r, "rb") as p:
                data = p.read()
            os.waitpid(pid, 0)
            if not data:
                for x in mine:
                    self.undecided.append("%s: the analysis did not finish" % (label % x))
                    self.obl.append((label % x, "undecided"))
                continue
            obl, und, viol, an, sm, out = pickle.loads(data)
            self.obl += obl
            self.undecided += und
            self.samples += sm
            for v in viol:
                self.violate(v["key"], v["where"], v["detail"])
            for k, v in an.items():
                self.note(k, *v)
            res.update(out)
        return {x: res.get(x) for x in names}

    def violate(self, key, where, detail):
        if not any(v["key"] == key for v in self.viol):
            self.viol.append({"key": key, "where": where, "detail": detail})

    def same(self, key, got, want, where, what):
        """the value computed by the code is the value the property asks for"""
        d = t.equal(got, want)
        if d is None:
            return True
        kind, trail, a, b = d
        if kind == "unknown" or any(unread(x) for x in trail):
            raise Undecided("%s: cannot compare %s with %s" % (what, t.show(a)[:300], t.show(b)[:300]))
        self.violate(key, where, "%s\n  when %s\n  the code gives %s\n  the property asks for %s" % (
            what, " and ".join(map(showfact, trail)) or "always", t.show(a)[:1500], t.show(b)[:1500]))
        return False


def unread(x):
    """a condition on what an operation on lists leaves, which is not followed further"""
    x = x[0] if isinstance(x, tuple) else x
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if not hasattr(y, "op") or y in seen:
            continue
        seen.add(y)
        if y.op == "call" and isinstance(y.a[0], str) and y.a[0].startswith("vec."):
            return True
        todo += t.kids_of(y.a)
    return False


def showfact(x):
    try:
        if isinstance(x, tuple) and len(x) == 2 and hasattr(x[0], "op"):
            return "%s is %s" % (t.show(x[0])[:200], x[1])
    except Exception:
        pass
    return str(x)[:200]


def where(F, key):
    f = F.fns[key]
    return "%s (%s:%s)" % (f["path"], f["file"], f["line"])


def known():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid):
    sys.setrecursionlimit(40000)
    import threading
    threading.stack_size(1 << 29)
    res = []
    th = threading.Thread(target=lambda: res.append(run(pid)))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)


def run(pid):
    from . import checks
    import importlib, pkgutil
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module("vf.checks." + m.name)
    f, groups, explanation, rule = REG[pid]
    t0 = time.time()
    c = Check(pid)
    for g in groups:
        c.facts(g)
    c.obligation("all", lambda: f(c))
    c.obl = [o for o in c.obl if o[0] != "all" or o[1] == "undecided"] or c.obl
    listed = [k for k in known() if k.get("property") == pid and k.get("status") != "fixed"]
    shown, new = [], []
    for v in c.viol:
        k = next((k for k in listed if k["key"] == v["key"]), None)
        (shown if k else new).append((v, k))
    for v, k in shown:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {
        "property": pid, "tier": c.tier if c.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": explanation, "rule": rule,
            "obligations": len(c.obl), "discharged": sum(1 for o in c.obl if o[1] == "discharged"),
            "undecided": c.undecided[:40],
            "analysed": {k: len(v) for k, v in c.analysed.items()},
            "analysed_names": {k: sorted(v)[:80] for k, v in c.analysed.items()},
            "samples": c.samples[:12],
            "obligation_names": [o[0] for o in c.obl][:200],
            "known_findings": [k["key"] for _, k in shown],
        },
        "assumptions": c.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    EVD = os.environ.get("VF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, pid + ".json"), "w"), indent=1)
    if new:
        os.makedirs(os.path.join(EVD, "reports"), exist_ok=True)
        rp = os.path.join(EVD, "reports", pid + ".txt")
        with open(rp, "w") as o:
            for v, _ in new:
                o.write("%s\n  at %s\n  %s\n\n" % (v["key"], v["where"], v["detail"]))
        for v, _ in new[:6]:
            print("%s: %s\n  at %s\n  %s" % (pid, v["key"], v["where"], v["detail"][:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, ROOT)))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %.1fs" % (pid, len(c.obl), sum(1 for o in c.obl if o[1] == "discharged"), sum(1 for o in c.obl if o[1] == "undecided"), time.time() - t0))
    for u in c.undecided[:8]:
        print("  undecided:", u[:400])
    return 0
