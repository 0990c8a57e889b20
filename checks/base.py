"""Check driver: obligations, violations, known findings, evidence."""
import importlib
import json
import os
import sys
import time
import traceback

from sa.dom import C, Unsupported, Budget, Infeasible
from sa.objs import PyRaise
from sa.interp import Interp

REGISTRY = {
    # property id -> (module, function)
}


T0 = time.time()


class Broken(Exception):
    """The analysis cannot be carried out (anchor vanished, construct without a transfer function)."""


class Check:
    def __init__(self, pid, tier, repo, seed):
        self.pid = pid
        self.tier = tier
        self.repo = repo
        self.seed = seed
        self.oblig = {}         # rule -> count of obligations decided
        self.viol = {}          # key -> text
        self.samples = {}
        self.expl = []
        self.assume = []
        self.funcs = set()
        self.paths = 0
        self.mins = {}
        self.unknown = []
        self.extra = {}
        self.floor = {}
        self.t0 = T0
        self.nfail = 0
        self.known = None
        self.only = None        # restrict the obligations to rules about shared objects


    # -- obligations ---------------------------------------------------
    def ok(self, rule, n=1):
        if self.only is not None and rule != self.only:
            return
        self.oblig[rule] = self.oblig.get(rule, 0) + n

    def fail(self, rule, construct, text):
        """An obligation that is false on a feasible abstract state."""
        if self.only is not None and rule != self.only:
            return
        self.oblig[rule] = self.oblig.get(rule, 0) + 1
        key = "%s|%s" % (rule, construct)
        if key not in self.viol:
            self.viol[key] = text
        if self.new(key):
            # a broken tree needs no complete list: stop when enough was found
            self.nfail += 1
            if self.nfail >= 40 and C.deadline is not None and time.time() > self.t0 + 100:
                C.deadline = 0

    def new(self, key):
        if self.known is None:
            self.known = load_known(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))).get(self.pid, {})
        return key not in self.known

    def ob(self, rule, cond, construct, text):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, construct, text() if callable(text) else text)
        return cond

    def sample(self, rule, text):
        l = self.samples.setdefault(rule, [])
        if len(l) < 3 and text not in l:
            l.append(text)

    def require(self, rule, n=1):
        """The rule must have been instantiated at least n times (else the check is vacuous)."""
        if self.only is None or rule == self.only:
            self.floor[rule] = n

    def explain(self, text):
        if text not in self.expl:
            self.expl.append(text)

    def assumes(self, text):
        if text not in self.assume:
            self.assume.append(text)

    def interp(self):
        C.reset()
        C.deadline = self.t0 + 420
        I = Interp({"MahjongAI": os.path.join(self.repo, "MahjongAI")})
        self._I = I
        if self.only is not None:
            from checks import pure
            pure.install(self, I)
        return I

    def explore(self, I, fn, limit=None):
        """Run fn over every partition of the abstract input."""
        n0 = C.stats["paths"]
        r = C.explore(fn, limit)
        self.paths += C.stats["paths"] - n0
        self.funcs |= I.analysed_funcs
        return r


def merge(c, parts):
    """Combine results computed in child processes."""
    for p in parts:
        for k, v in p["oblig"].items():
            c.oblig[k] = c.oblig.get(k, 0) + v
        for k, v in p["viol"].items():
            c.viol.setdefault(k, v)
        for k, v in p["samples"].items():
            for s in v:
                c.sample(k, s)
        for k, v in p["extra"].items():
            if isinstance(v, (int, float)):
                c.extra[k] = c.extra.get(k, 0) + v
            elif isinstance(v, list):
                l = c.extra.setdefault(k, [])
                for x in v:
                    if x not in l:
                        l.append(x)
            else:
                c.extra.setdefault(k, v)
        c.funcs |= set(p["funcs"])
        c.paths += p["paths"]


def state_of(c):
    return {"oblig": c.oblig, "viol": c.viol, "samples": c.samples, "extra": c.extra,
            "funcs": sorted(c.funcs), "paths": c.paths}


def parallel(c, fn, items, workers=8):
    """fn(check, item) for every item, each in a forked child; results merged into c."""
    import pickle
    pending = list(items)
    running = {}
    errors = []
    out = []
    sys.stdout.flush()
    while pending or running:
        if pending and time.time() > c.t0 + 150 and any(c.new(k) for p in out for k in p["viol"]):
            errors.append("stopped early: violations were found")
            pending = []
        while pending and len(running) < workers:
            it = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                cc = Check(c.pid, c.tier, c.repo, c.seed)
                cc.only = c.only
                try:
                    fn(cc, it)
                    res = ("ok", state_of(cc))
                except (Unsupported, Budget, Broken) as e:
                    if cc.viol:
                        res = ("okerr", state_of(cc), "%s: %s" % (type(e).__name__, e))
                    else:
                        res = ("err", "%s: %s [%s]" % (type(e).__name__, e, it))
                except BaseException:
                    res = ("err", traceback.format_exc()[-3000:])
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(w)
            running[r] = (pid, it)
        import select
        rs, _, _ = select.select(list(running), [], [])
        for r in rs:
            pid, it = running.pop(r)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(data)
            except Exception:
                errors.append("worker for %s died" % (it,))
                continue
            if res[0] == "err":
                errors.append(res[1])
            else:
                out.append(res[1])
                if res[0] == "okerr":
                    errors.append(res[2])
    merge(c, out)
    if errors:
        if not c.viol:
            raise Broken("; ".join(errors[:3]))
        c.unknown.extend(errors)


TRACE = bool(os.environ.get("SA_TRACE"))


def fork_explore(c, I, fn, workers=8):
    """Like c.explore, but every choice forks, so the work before a choice is done once.

    fn runs to the end on every partition; obligations are merged from all of them."""
    import pickle
    import shutil
    import tempfile
    from sa.dom import Explorer
    tmp = tempfile.mkdtemp(prefix="sa-")
    rd, wr = os.pipe()
    os.set_blocking(rd, False)
    os.write(wr, b"x" * (workers - 1))
    sys.stdout.flush()
    sys.stderr.flush()

    dead = []

    def wait(pid):
        if os.waitpid(pid, 0)[1]:
            dead.append(pid)

    def reset():
        dead.clear()
        c.oblig, c.viol, c.samples, c.extra, c.funcs = {}, {}, {}, {}, set()
        c.paths = 0

    top = os.fork()
    if top == 0:
        kids = []
        token = [False]
        reset()
        e = Explorer()

        def forker(n, why):
            if C.deadline is not None and time.time() > C.deadline:
                raise Budget("time budget")
            if TRACE:
                k = "split %s %s" % (I.loc(), str(why)[:90])
                c.extra[k] = c.extra.get(k, 0) + 1
            for i in range(1, n):
                try:
                    got = bool(os.read(rd, 1))
                except BlockingIOError:
                    got = False
                pid = os.fork()
                if pid == 0:
                    kids.clear()
                    token[0] = got
                    reset()
                    return i
                if got:
                    kids.append(pid)
                else:
                    wait(pid)
            return 0
        e.forker = forker
        C.expl.append(e)
        err = None
        try:
            try:
                fn()
                c.paths += 1
            except Infeasible:
                pass
            except (Unsupported, Budget, Broken) as x:
                err = "%s: %s" % (type(x).__name__, x)
            except PyRaise as x:
                err = "uncaught abstract exception %s %r at %s" % (x.exc.cls.name, x.exc.attrs.get("args"), x.loc)
            except BaseException:
                err = traceback.format_exc()[-3000:]
            c.funcs |= I.analysed_funcs
            with open(os.path.join(tmp, "%d.pkl" % os.getpid()), "wb") as f:
                pickle.dump((state_of(c), err), f)
            if token[0]:
                os.write(wr, b"x")
            for k in kids:
                wait(k)
        except BaseException:
            dead.append(0)
        os._exit(1 if dead else 0)
    wait(top)
    os.close(rd)
    os.close(wr)
    parts, errors = [], []
    for f in sorted(os.listdir(tmp)):
        try:
            with open(os.path.join(tmp, f), "rb") as h:
                st, err = pickle.load(h)
        except Exception:
            errors.append("a worker died")
            continue
        parts.append(st)
        if err:
            errors.append(err)
    shutil.rmtree(tmp)
    if dead:
        errors.append("a worker died")
    if not parts:
        errors.append("no partition was analysed")
    merge(c, parts)
    if errors:
        if not c.viol:
            raise Broken("; ".join(sorted(set(errors))[:3]))
        c.unknown.extend(errors)
    return sum(p["paths"] for p in parts)


def load_known(here):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' and
    'fixed: property=<id> <commit> <text>' (the latter suppress nothing)."""
    out = {}
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            body = line[len("finding:"):].strip()
            f = dict(x.split("=", 1) for x in body.split(" :: ")[0].split(" ; "))
            text = body.split(" :: ", 1)[1]
            out.setdefault(f["property"].strip(), {})[f["key"].strip()] = text
    return out


def main(argv, here):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    repo = os.environ.get("VERIF_REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--repo":
            repo = argv[i + 1]
    t0 = time.time()
    c = Check(pid, tier, repo, seed)
    from checks import registry
    mod, fn, meta = registry.lookup(pid)
    err = None
    try:
        getattr(importlib.import_module("checks." + mod), fn)(c)
        for rule, n in c.floor.items():
            if c.oblig.get(rule, 0) < n and not c.viol:
                raise Broken("rule %s was instantiated %d times, expected at least %d"
                             % (rule, c.oblig.get(rule, 0), n))
    except (Unsupported, Budget, Broken) as e:
        err = "%s: %s" % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    except PyRaise as e:
        err = "uncaught abstract exception %s %r at %s" % (e.exc.cls.name, e.exc.attrs.get("args"), e.loc)
        if verbose:
            traceback.print_exc()
    except (AttributeError, KeyError, IndexError, TypeError, OSError, SyntaxError, RecursionError,
            AssertionError, ValueError) as e:
        err = "%s: %s" % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    known = load_known(here).get(pid, {})
    new = {k: v for k, v in c.viol.items() if k not in known}
    old = {k: v for k, v in c.viol.items() if k in known}
    total = sum(c.oblig.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": " ".join(c.expl) or "static analysis of the current source",
            "obligations": total,
            "discharged": total - len(c.viol),
            "obligations_by_rule": c.oblig,
            "partitions_analysed": c.paths,
            "functions_analysed": sorted(c.funcs),
            "violations_by_construct": sorted(c.viol),
            "known_findings_reproduced": sorted(old),
            "samples": [s for l in c.samples.values() for s in l][:12],
        },
        "assumptions": c.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    ev["coverage"].update(c.extra)
    if c.unknown:
        ev["coverage"]["analysis_errors"] = c.unknown[:5]
    if err:
        ev["coverage"]["analysis_errors"] = ev["coverage"].get("analysis_errors", []) + [err]
    edir = os.path.join(here, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    print("%s: %d obligations, %d partitions, %d functions, %.1fs" %
          (pid, total, c.paths, len(c.funcs), time.time() - t0))
    if new:
        rp = os.path.join(edir, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k in sorted(new):
                f.write("%s\n    %s\n" % (k, new[k]))
        for k in sorted(new)[:10]:
            print("  %s\n    %s" % (k, new[k]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err or c.unknown:
        print("ANALYSIS-ERROR property=%s %s" % (pid, err or c.unknown[0]))
        return 2
    return 0
