"""Bounded-exhaustive model-checking runner.

A property module (mc/props/<id>.py) defines
    ID, LEVEL, TECHNIQUE, RULE, ASSUMPTIONS
    cases(tier) -> list of JSON-able dicts: the complete bounded space
    run(case, ctx) -> None: explores the case, reporting through ctx
The runner enumerates every case (nothing is sampled), in parallel, collects
counts and violations, compares them with the known findings, writes the
evidence file and the replay files.
"""
import os, sys, io, json, time, hashlib, signal, traceback, importlib, contextlib
import concurrent.futures as cf
import multiprocessing as mp
from collections import Counter, OrderedDict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FOXES_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_TIMEOUT = int(os.environ.get("MC_CASE", 0)) or None      # default: 240 s per attempt (quick), 3000 s (thorough)
MAX_FAILS = int(os.environ.get("MC_FAILS", 12))


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """enough failures in this case"""


class Ctx:
    """collects what one case explored"""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.evals = 0          # executions of real code
        self.trans = 0          # operations / steps taken
        self.states = set()     # hashes of distinct canonical states / observations
        self.nontrivial = set() # hashes of distinct nontrivial cases
        self.fails = []
        self.counters = Counter()
        self.samples = []
        self.capped = False

    def state(self, key):
        self.states.add(h64(key))

    def nt(self, key):
        self.nontrivial.add(h64(key))

    def fail(self, key, msg, **data):
        self.fails.append({"key": str(key), "msg": str(msg)[:2000], "data": data})
        if len(self.fails) >= MAX_FAILS:
            raise StopCase()

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def pack(self):
        return dict(evals=self.evals, trans=self.trans, states=self.states,
                    nontrivial=self.nontrivial, fails=self.fails,
                    counters=self.counters, samples=self.samples, capped=self.capped)


def h64(key):
    if isinstance(key, bytes):
        b = key
    else:
        b = repr(key).encode()
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), "big")


def exc_site(e):
    """innermost foxes frame of an exception, for a stable failure key"""
    tb, site = e.__traceback__, "?"
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/foxes/" in fn:
            site = fn.split("/foxes/", 1)[1] + ":" + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return f"{type(e).__name__}@{site}"


@contextlib.contextmanager
def quiet():
    """foxes prints a lot; keep it out of the check's output"""
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def _alarm(sig, frm):
    # worker processes of a hanging pool go first, then whatever waits for them gets the exception (again, if the
    # clean-up hangs as well)
    try:
        for p in mp.active_children():
            p.kill()
    except Exception:
        pass
    signal.alarm(20)
    raise CaseTimeout("case did not finish in time")


_MOD = None


def _winit(modname):
    global _MOD
    import warnings
    warnings.filterwarnings("ignore")
    import dask
    # worker processes are forked by foxes' own engines: keep dask's thread pools out of
    # them unless a dask engine is under test
    dask.config.set(scheduler="synchronous")
    _MOD = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    if os.environ.get("MC_LOUD") is None:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = sys.stdout


def _wrun(args):
    """a case that does not end is tried a second time: pools of processes can lock up while they start or stop, which
    is a matter of the interpreter; code that hangs does so again"""
    out = _attempt(args)
    if any(f["key"] == "timeout" for f in out["fails"]):
        out = _attempt(args)
        out["counters"] = dict(out["counters"], second_attempts=1)
    return out


def _attempt(args):
    case, tier, seed = args
    ctx = Ctx(tier, seed)
    t0 = time.time()
    signal.alarm(CASE_TIMEOUT or (240 if tier == "quick" else 3000))
    try:
        with (quiet() if os.environ.get("MC_LOUD") is None else contextlib.nullcontext()):
            _MOD.run(case, ctx)
    except StopCase:
        pass
    except CaseTimeout as e:
        ctx.fails.append({"key": "timeout", "msg": str(e), "data": {}})
    except Exception as e:
        ctx.fails.append({"key": "exception:" + exc_site(e),
                          "msg": traceback.format_exc()[-3000:], "data": {}})
    finally:
        signal.alarm(0)
        try:
            import foxes.core.engine as _e
            _e.__dict__["__global_engine_data__"]["engine"] = None
        except Exception:
            pass
    out = ctx.pack()
    out["t"] = time.time() - t0
    return out


def known_findings(pid):
    """lines: finding: property=<id> key=<key prefix> <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].strip().split(None, 2)
                p = parts[0].split("=", 1)[1]
                k = parts[1].split("=", 1)[1]
                if p == pid:
                    out.append((k, parts[2] if len(parts) > 2 else ""))
    return out


def match_known(known, key):
    for k, what in known:
        if key == k or (k.endswith("*") and key.startswith(k[:-1])):
            return k
    return None


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(tmp, path)


def run_property(pid, tier, seed, replay=None, only=None, jobs=None):
    modname = f"mc.props.{pid.lower()}"
    mod = importlib.import_module(modname)
    t0 = time.time()
    deadline = t0 + (float(os.environ.get("MC_BUDGET", 0)) or (780 if tier == "quick" else 6 * 3600))
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = list(mod.cases(tier))
        if only is not None:
            cases = [cases[i] for i in only]
    jobs = jobs or int(os.environ.get("MC_JOBS", getattr(mod, "JOBS", 8)))
    jobs = max(1, min(jobs, len(cases)))
    tot = dict(evals=0, trans=0)
    states, nontriv, counters = set(), set(), Counter()
    fails, samples, capped, done = [], [], False, 0
    slow = []

    def take(case, r):
        nonlocal capped, done
        done += 1
        tot["evals"] += r["evals"]
        tot["trans"] += r["trans"]
        states.update(r["states"])
        nontriv.update(r["nontrivial"])
        counters.update(r["counters"])
        slow.append((round(r.get("t", 0), 2), json.dumps(case)[:150]))
        if r["samples"] and len(samples) < 5:
            samples.append({"case": case, "observed": r["samples"][0]})
        if r["capped"]:
            capped = True
        for f in r["fails"]:
            fails.append((case, f))

    known = known_findings(pid)
    args = [(c, tier, seed) for c in cases]
    ctxmp = mp.get_context("fork")
    # import once, then fork
    with quiet():
        importlib.import_module("mc.worlds")
    ex = cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctxmp, initializer=_winit, initargs=(modname,))
    stopped = False
    try:
        futs = OrderedDict((ex.submit(_wrun, a), a[0]) for a in args)
        pending = set(futs)
        while pending:
            d, pending = cf.wait(pending, timeout=max(0.1, deadline - time.time()), return_when=cf.FIRST_COMPLETED)
            if not d:
                capped = True
                stopped = True
                for f in list(pending)[:8]:
                    print("  not finished:", "running" if f.running() else "queued", json.dumps(futs[f])[:200])
                break
            for f in d:
                case = futs[f]
                try:
                    take(case, f.result())
                except cf.process.BrokenProcessPool as e:
                    fails.append((case, {"key": "worker-died", "msg": f"the process exploring this case died: {e}", "data": {}}))
                    pending = set()
                    capped = True
                    break
            unknown = [1 for c, f in fails if match_known(known, f["key"]) is None]
            if len(unknown) >= MAX_FAILS:
                stopped = True
                capped = True
                break
    finally:
        procs = list(getattr(ex, "_processes", {}).values()) if stopped else []
        ex.shutdown(wait=not stopped, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass

    # classify
    hit, bad = OrderedDict(), []
    for case, f in fails:
        k = match_known(known, f["key"])
        if k is not None:
            hit.setdefault(k, (case, f))
        else:
            bad.append((case, f))
    for k, what in known:
        if k in hit or replay is None:
            st = "" if k in hit else " (listed; not met in this run)"
            print(f"KNOWN-FINDING: property={pid} {what}{st}")
    rdir = os.path.join(EVID, "replays")
    n = 0
    seen = set()
    for case, f in bad:
        if f["key"] in seen and n >= 3:
            continue
        seen.add(f["key"])
        n += 1
        path = replay or os.path.join(rdir, f"{pid}-{n}.json")
        if not replay:
            write_json(path, {"property": pid, "case": case, "key": f["key"], "msg": f["msg"], "data": f["data"],
                              "rerun": f"cd /verif && ./check {pid} --tier {tier} --replay {path}"})
        print(f"VIOLATION property={pid} replay={path}")
        print("  key:", f["key"])
        print("  " + f["msg"].replace("\n", "\n  ")[-1500:])
        if n >= max(8, MAX_FAILS - 4):
            break
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "exploration")
    cov = dict(cases_in_bounded_space=len(cases), cases_explored=done,
               exhaustive=bool(done == len(cases) and not capped and replay is None and only is None),
               samples=samples or [{"case": cases[0] if cases else None}],
               counters=dict(counters))
    if level == "model_checking":
        cov.update(states=len(states), transitions=tot["trans"], traces_validated_against_impl=tot["evals"])
    else:
        cov.update(evaluations=tot["evals"], distinct_nontrivial=len(nontriv), rule=getattr(mod, "RULE", ""),
                   distinct_observations=len(states), steps=tot["trans"])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(bad),
              known_findings=sorted(hit))
    if replay is None:
        write_json(os.path.join(EVID, f"{pid}.json"), ev)
    print(f"{pid} [{tier}] cases={done}/{len(cases)} evals={tot['evals']} steps={tot['trans']} "
          f"states={len(states)} nontrivial={len(nontriv)} violations={len(bad)} known={len(hit)} capped={capped} wall={wall:.1f}s")
    if os.environ.get("MC_SLOW"):
        for s in sorted(slow)[-8:]:
            print("   slow", s)
        print("   counters", dict(counters))
    return 1 if bad else 0
