"""Driver shared by all checks: case loop, shrinking, replay files, evidence, known findings."""
import collections, concurrent.futures, hashlib, json, multiprocessing, os, random, resource, shutil, signal, subprocess
import sys, tempfile, time, traceback

from . import build

ROOT = build.ROOT
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Infra(Exception):
    """The machinery itself could not run (not a verdict on the property)."""


# ---------------------------------------------------------------- processes

class Result:
    __slots__ = ("rc", "out", "err", "cpu_killed")

    def __init__(self, rc, out, err, cpu_killed=False):
        self.rc, self.out, self.err, self.cpu_killed = rc, out, err, cpu_killed

    def __repr__(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[-400:], self.err[-400:])


def _limits(cpu, fsize, data, nofile):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if data:
            resource.setrlimit(resource.RLIMIT_DATA, (data, data))
        if nofile:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
    return f


def run(cmd, cwd=None, env=None, stdin=None, cpu=20, wall=120, fsize=64 << 20, data=3 << 30, exe=None, nofile=0,
        merge=False):
    """Runs a command under CPU/file/data limits. rc: exit code, -signal, or 'wall' when the wall clock ran out."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, executable=exe,
                         stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         preexec_fn=_limits(cpu, fsize, data, nofile))
    try:
        out, err = p.communicate(stdin, timeout=wall)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "wall"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    else:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    return Result(rc, out or b"", err or b"", rc in (-signal.SIGXCPU, -signal.SIGKILL))


# ---------------------------------------------------------------- case driver

_W = {}


def _work_init(mod, tc, base):
    _W["mod"], _W["tc"] = mod, tc
    _W["dir"] = tempfile.mkdtemp(dir=base)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _fresh():
    d = os.path.join(_W["dir"], "w")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def _run_case(arg):
    idx, seed, tier, deadline = arg
    if time.monotonic() > deadline:
        return idx, "skipped", None, None, None
    mod, tc = _W["mod"], _W["tc"]
    try:
        rng = random.Random(seed)
        data = mod.gen(rng, idx, tier)
        fail, stats = mod.check(tc, data, _fresh())
        return idx, "ok", data if fail or idx < 6 else None, fail, stats
    except Infra as e:
        return idx, "infra", None, str(e), None
    except Exception:
        return idx, "infra", None, traceback.format_exc(), None


def _recheck(data):
    try:
        return _W["mod"].check(_W["tc"], data, _fresh())[0]
    except Exception:
        return {"infra": traceback.format_exc()}


def fails_same(fail):
    return bool(fail) and not (isinstance(fail, dict) and "infra" in fail)


def ddmin(items, test):
    """Smallest sublist for which test(sublist) holds (1-minimal)."""
    n = 2
    while len(items) >= 2:
        size = max(1, len(items) // n)
        cut = False
        for i in range(0, len(items), size):
            rest = items[:i] + items[i + size:]
            if rest and test(rest):
                items, cut, n = rest, True, max(n - 1, 2)
                break
        if not cut:
            if size == 1:
                break
            n = min(n * 2, len(items))
    return items


def shrink(mod, data, fail, limit=150, tmax=120):
    """Generic shrinking: ddmin over data['items'] when present, then the module's own candidates."""
    t0, tries = time.monotonic(), [0]
    best = [data, fail]

    def test(d):
        if tries[0] >= limit or time.monotonic() - t0 > tmax:
            return False
        tries[0] += 1
        f = _recheck(d)
        if fails_same(f) and _sig(mod, d, f) == _sig(mod, best[0], best[1]):
            best[0], best[1] = d, f
            return True
        return False

    hint = fail.get("items") if isinstance(fail, dict) else None
    if isinstance(data.get("items"), list):
        if hint and len(hint) < len(data["items"]):
            for h in hint[:5]:
                if test({**data, "items": [data["items"][h]]}):
                    break
        if len(best[0]["items"]) > 1:
            ddmin(best[0]["items"], lambda it: test({**best[0], "items": it}))
    cand = getattr(mod, "candidates", None)
    progress = True
    while cand and progress and tries[0] < limit and time.monotonic() - t0 < tmax:
        progress = False
        for d in cand(best[0]):
            if test(d):
                progress = True
                break
            if tries[0] >= limit:
                break
    return best[0], best[1]


def _sig(mod, data, fail):
    f = getattr(mod, "signature", None)
    return f(data, fail) if f else None


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def merge_stats(total, st):
    for k, v in (st or {}).items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            merge_stats(total.setdefault(k, {}), v)
        elif isinstance(v, (list, set, tuple)):
            total.setdefault(k, set()).update(v)


class Runner:
    def __init__(self, mod, tier, seed):
        self.mod, self.tier, self.seed = mod, tier, seed
        self.id = mod.ID
        self.t0 = time.monotonic()
        self.violations, self.known_hit = [], []
        self.stats, self.samples = {}, []
        self.infra = []
        self.tc = build.Toolchain()
        self.known = [k for k in load_known()["findings"] if k["property"] == self.id]

    def prepare(self):
        self.tc.need(*getattr(self.mod, "NEEDS", ("tools",)))
        if hasattr(self.mod, "setup"):
            self.mod.setup(self.tc)

    def budget(self):
        q = self.mod.QUICK if self.tier == "quick" else self.mod.THOROUGH
        return q  # (cases, soft seconds)

    def main(self):
        self.prepare()
        n, secs = self.budget()
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = max(1, int(n * scale))
        deadline = time.monotonic() + secs
        base = tempfile.mkdtemp(prefix="v%s." % self.id, dir=os.environ.get("VERIF_TMP", "/tmp"))
        ctx = multiprocessing.get_context("fork")
        done = skipped = 0
        fails = []
        try:
            nproc = min(NPROC, getattr(self.mod, "MAXPROC", NPROC))
            args = ((i, int.from_bytes(hashlib.sha256(("%s/%d/%d" % (self.id, self.seed, i)).encode()).digest()[:8], "big"),
                     self.tier, deadline) for i in range(n))
            with ctx.Pool(nproc, _work_init, (self.mod, self.tc, base)) as pool:
                for idx, kind, data, fail, stats in pool.imap_unordered(_run_case, args, chunksize=1):
                    if kind == "skipped":
                        skipped += 1
                        continue
                    if kind == "infra":
                        self.infra.append((idx, fail))
                        continue
                    done += 1
                    merge_stats(self.stats, stats)
                    if fail:
                        fails.append((idx, data, fail))
                        if len(fails) >= 40 and not os.environ.get("VERIF_ALL"):
                            pool.terminate()
                            break
                    elif data is not None:
                        self.samples.append((idx, data))
            _work_init(self.mod, self.tc, base)
            fails.sort(key=lambda x: x[0])
            self.handle(fails)
            if hasattr(self.mod, "finish"):
                self.mod.finish(self)
            self.replay_fixed()
        finally:
            shutil.rmtree(base, ignore_errors=True)
        self.stats["cases"] = done
        self.stats["skipped_out_of_time"] = skipped
        return self.conclude(n)

    def replay_fixed(self):
        """Saved minimal inputs (regressions/<ID>/*.json) run on every invocation."""
        d = os.path.join(ROOT, "regressions", self.id)
        k = 0
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            with open(os.path.join(d, f)) as fp:
                data = json.load(fp)
            data = data.get("data", data)
            k += 1
            fail = _recheck(data)
            if isinstance(fail, dict) and "infra" in fail:
                self.infra.append((f, fail["infra"]))
            elif fail and not any(self.match(kf, data, fail) for kf in self.known):
                self.violation(data, fail, "regression " + f)
        if k:
            self.stats["regression_replays"] = k

    def match(self, k, data, fail):
        f = getattr(self.mod, "known_match", None)
        return bool(f and f(k, data, fail))

    def handle(self, fails):
        seen = set()
        confirmed = 0
        for idx, data, fail in fails:
            if confirmed >= int(os.environ.get("VERIF_MAXV", "3")):
                break
            # replay before believing it
            f2 = [_recheck(data) for _ in range(2)]
            if not all(fails_same(x) for x in f2):
                self.stats["not_reproduced"] = self.stats.get("not_reproduced", 0) + 1
                if not any(fails_same(x) for x in f2):
                    continue
                if not getattr(self.mod, "FLAKY_IS_VIOLATION", False):
                    continue
            k = next((k for k in self.known if self.match(k, data, fail)), None)
            if k:
                self.known_hit.append(k["id"])
                continue
            small, sf = (data, fail) if os.environ.get("VERIF_NOSHRINK") else shrink(self.mod, data, fail)
            k = next((k for k in self.known if self.match(k, small, sf)), None)
            if k:
                self.known_hit.append(k["id"])
                continue
            sig = _sig(self.mod, small, sf)
            if sig is not None and sig in seen:
                continue
            seen.add(sig)
            self.violation(small, sf, "case %d" % idx)
            confirmed += 1

    def violation(self, data, fail, where):
        d = os.path.join(ROOT, "replays", self.id)
        os.makedirs(d, exist_ok=True)
        blob = json.dumps({"property": self.id, "where": where, "failure": fail, "data": data}, indent=1, default=str)
        p = os.path.join(d, hashlib.sha256(json.dumps(data, default=str, sort_keys=True).encode()).hexdigest()[:12] + ".json")
        with open(p, "w") as f:
            f.write(blob)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.id, p))
        txt = fail.get("msg") if isinstance(fail, dict) else str(fail)
        print("  " + str(txt)[:1500].replace("\n", "\n  "))
        sys.stdout.flush()

    def conclude(self, n):
        st = self.stats
        ev = st.pop("evaluations", st.get("cases", 0))
        nt = st.pop("nontrivial_keys", None)
        distinct = len(nt) if nt is not None else st.pop("nontrivial", 0)
        cov = {"evaluations": ev, "distinct_nontrivial": distinct, "rule": self.mod.RULE,
               "samples": [self.mod.sample(d) if hasattr(self.mod, "sample") else d for _, d in sorted(self.samples, key=lambda x: x[0])[:3]],
               "distribution": json.loads(json.dumps(st, default=lambda o: len(o) if isinstance(o, set) else str(o)))}
        cov["known_findings_hit"] = len(self.known_hit)
        if self.infra:
            cov["infra_errors"] = len(self.infra)
            for i, m in self.infra[:3]:
                print("infra error in case %s:\n%s" % (i, m), file=sys.stderr)
        out = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": getattr(self.mod, "LEVEL", "exploration"),
               "coverage": cov, "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
               "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.id + ".json"), "w") as f:
            json.dump(out, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1fs"
              % (self.id, self.tier, self.seed, st.get("cases", 0), ev, distinct, len(self.violations), out["wall_s"]))
        if self.violations:
            return 1
        bad = len(self.infra)
        if bad and (bad > 0.02 * max(1, n) or st.get("cases", 0) == 0):
            print("too many infrastructure errors: %d" % bad, file=sys.stderr)
            return 2
        if st.get("cases", 0) == 0:
            print("nothing ran", file=sys.stderr)
            return 2
        return 0


def main(mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--seed":
            os.environ["VERIF_SEED"] = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Runner(mod, tier, seed)
    if replay:
        r.prepare()
        base = tempfile.mkdtemp(prefix="v%s." % mod.ID)
        try:
            _work_init(mod, r.tc, base)
            with open(replay) as f:
                data = json.load(f)
            fail = _recheck(data.get("data", data))
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(base, ignore_errors=True)
            else:
                print("kept", base)
        if fail:
            print("VIOLATION property=%s replay=%s" % (mod.ID, replay))
            print(fail.get("msg", fail) if isinstance(fail, dict) else fail)
            return 1
        print("replay passes")
        return 0
    try:
        return r.main()
    except build.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 2
