"""Common runner for all checks.

A check declares *families* of cases.  A case is a pure function of (property, family, VERIF_SEED,
index).  The parent process shards the cases over worker subprocesses (each with its own scratch
HOME / TMPDIR / cwd, all removed afterwards), collects what the monitors observed, and turns it into
a three-valued verdict:

  exit 0   held on everything observed (and every required observation counter is non-zero)
  exit 1   + "VIOLATION property=.. replay=.."
  exit 2   inconclusive / harness error (never silently folded into either of the others)
"""
import argparse
import faulthandler
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
HANG_S = float(os.environ.get("VERIF_HANG_S", "100"))
TOTAL_S = {"quick": 780, "thorough": 6 * 3600}
AFTER_VIOLATION_S = {"quick": 40, "thorough": 600}   # how long a run goes on once it found something


class Skip(Exception):
    """Raised by a case to say it is trivial / not applicable (counted, not a pass)."""


class Violation(Exception):
    def __init__(self, key, msg, details=None):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg, self.details = key, msg, details


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            toks = line.split()
            prop = toks[1].split("=", 1)[1]
            key = toks[2].split("=", 1)[1]
            out[(prop, key)] = " ".join(toks[3:])
    return out


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, str) else x[:6000]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    return repr(x)[:500]


class Ctx:
    def __init__(self, check, family, idx, seed, tier, scratch):
        self.check, self.family, self.idx, self.seed, self.tier = check, family, idx, seed, tier
        self.rng = random.Random(f"{check.prop}:{family}:{seed}:{idx}")
        self.scratch = scratch
        self.violations = []
        self.counters = {}
        self.sigs = []
        self.sample_ = None
        self._dirs = 0

    def observe(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        """Signature of the behaviour this case actually exercised (distinct_nontrivial)."""
        h = hashlib.sha1(repr((self.family,) + parts).encode()).hexdigest()[:16]
        self.sigs.append(h)

    def sample(self, obj):
        if self.sample_ is None:
            self.sample_ = jsonable(obj)

    def violation(self, key, msg, **details):
        self.violations.append(dict(key=f"{key}", msg=str(msg)[:4000], details=jsonable(details)))

    def require(self, cond, key, msg, **details):
        self.observe("oracle_evaluations")
        if not cond:
            self.violation(key, msg() if callable(msg) else msg, **details)
        return bool(cond)

    def tmpdir(self):
        self._dirs += 1
        p = os.path.join(self.scratch, f"{self.family}_{self.idx}_{self._dirs}")
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p


def uninterpretable(e):
    """A result the oracle cannot read (as opposed to an API that has moved or a broken harness)."""
    if not isinstance(e, (AttributeError, KeyError, IndexError, TypeError, ValueError)):
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        mod = getattr(o if isinstance(o, type) else type(o), "__module__", "") or ""
        if isinstance(o, type(sys)) or mod.split(".")[0] in ("hamilton", "hamilton_sdk"):
            return False
    return True


class Family:
    def __init__(self, name, fn, quick, thorough, weight):
        self.name, self.fn, self.n = name, fn, dict(quick=quick, thorough=thorough)
        self.weight = weight


class Check:
    def __init__(self, prop, level="exploration", rule="", assumptions=(), required=(), workers=8,
                 hang_s=None, extensions=("yaml", "numpy", "pandas", "polars", "polars_lazyframe")):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.required = list(required)
        self.families = {}
        self.workers = workers
        self.hang_s = hang_s or HANG_S
        self.setup_fn = None
        self.extensions = extensions

    def _setup(self):
        """Load only the plugin extensions the check uses (loading all of them takes 7 s)."""
        from hamilton import registry
        for e in self.extensions:
            registry.load_extension(e)
        if self.setup_fn:
            self.setup_fn()

    def family(self, name, quick, thorough=None, weight=1):
        def deco(fn):
            self.families[name] = Family(
                name, fn, quick, quick * 12 if thorough is None else thorough, weight
            )
            return fn
        return deco

    def setup(self, fn):
        """Run once in every worker before its cases."""
        self.setup_fn = fn
        return fn

    # ---------------------------------------------------------------- worker
    def _cases(self, tier):
        out = []
        for f in self.families.values():
            out += [(f.name, i) for i in range(f.n[tier])]
        # deterministic interleaving so that every worker gets a mix
        out.sort(key=lambda c: hashlib.md5(f"{c[0]}:{c[1]}".encode()).hexdigest())
        return out

    def _run_case(self, fam, idx, seed, tier, scratch):
        ctx = Ctx(self, fam, idx, seed, tier, scratch)
        err = None
        try:
            self.families[fam].fn(ctx)
        except Skip as e:
            ctx.observe("skipped")
            ctx.observe(f"skipped:{e}")
        except Violation as e:
            ctx.violation(e.key, e.msg, **(e.details or {}))
        except Exception as e:  # noqa: BLE001
            fn = blame(e)
            tb = traceback.format_exc()
            if fn:
                ctx.violation(
                    f"unexpected-exception:{fam}:{type(e).__name__}:{fn}",
                    f"{type(e).__name__}: {str(e)[:1500]}", traceback=tb[-6000:],
                )
            elif uninterpretable(e):
                # the workload is fixed by the seed and this never happens on the tree the check was
                # written for: what the code returned does not have the documented shape
                ctx.violation(
                    f"unexpected-shape:{fam}:{type(e).__name__}",
                    f"the oracle cannot read what the code returned: {type(e).__name__}: {str(e)[:1500]}",
                    traceback=tb[-6000:],
                )
            else:
                err = tb
        return ctx, err

    def _worker(self, args):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        faulthandler.enable()
        faulthandler.register(signal.SIGUSR1, all_threads=True)
        scratch = args.scratch
        out = open(args.out, "a", buffering=1)

        def emit(**kw):
            out.write(json.dumps(kw) + "\n")

        import logging
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.filterwarnings("ignore")
        self._setup()
        emit(t="ready")
        if args.only:
            fam, idx = args.only.rsplit(":", 1)
            cases = [(fam, int(idx))]
        else:
            cases = self._cases(args.tier)[args.shard::args.nshards]
        skip = args.skip
        for fam, idx in cases[skip:]:
            emit(t="start", c=[fam, idx])
            tc = time.time()
            ctx, err = self._run_case(fam, idx, args.seed, args.tier, scratch)
            emit(t="done", c=[fam, idx], counters=ctx.counters, sigs=ctx.sigs,
                 viol=ctx.violations, err=err, sample=ctx.sample_, dt=time.time() - tc)
            for d in os.listdir(scratch):
                if d.startswith(f"{fam}_{idx}_"):
                    shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
        emit(t="end")
        out.close()
        sys.stdout.flush()
        os._exit(0)

    # ---------------------------------------------------------------- parent
    def _spawn(self, root, k, n, tier, seed, skip=0, only=None, tag=""):
        scratch = os.path.join(root, f"w{k}{tag}")
        os.makedirs(scratch, exist_ok=True)
        home = os.path.join(scratch, "home")
        os.makedirs(home, exist_ok=True)
        os.makedirs(os.path.join(scratch, "tmp"), exist_ok=True)
        outf = os.path.join(root, f"out{k}{tag}.jsonl")
        env = dict(os.environ)
        env.update(
            HOME=home, TMPDIR=os.path.join(scratch, "tmp"), HAMILTON_TELEMETRY_ENABLED="false",
            PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
            PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", POLARS_MAX_THREADS="2",
            PYTHONPATH=os.path.join(VERIF, "lib") + ":" + REPO + ":" + os.path.join(REPO, "ui/sdk/src"),
            VERIF_SCRATCH=scratch, HAMILTON_AUTOLOAD_EXTENSIONS="0",
        )
        cmd = [sys.executable, os.path.abspath(sys.argv[0]), "--worker", "--shard", str(k),
               "--nshards", str(n), "--tier", tier, "--seed", str(seed), "--scratch", scratch,
               "--out", outf, "--skip", str(skip)]
        if only:
            cmd += ["--only", only]
        errf = open(os.path.join(root, f"err{k}{tag}.txt"), "ab")
        p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=errf, stderr=errf,
                             start_new_session=True)
        return dict(p=p, out=outf, err=errf.name, k=k, pos=0, last=time.time(), cur=None,
                    ended=False, tag=tag, ndone=0, skip=skip)

    @staticmethod
    def _kill(w):
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            w["p"].wait(10)
        except Exception:
            pass

    def _poll(self, w, on_done):
        progressed = False
        if os.path.exists(w["out"]):
            with open(w["out"]) as f:
                f.seek(w["pos"])
                while True:
                    line = f.readline()
                    if not line.endswith("\n"):
                        break
                    w["pos"] = f.tell()
                    progressed = True
                    m = json.loads(line)
                    if m["t"] == "start":
                        w["cur"] = tuple(m["c"])
                    elif m["t"] == "done":
                        w["cur"] = None
                        w["ndone"] += 1
                        on_done(m)
                    elif m["t"] == "end":
                        w["ended"] = True
        if progressed:
            w["last"] = time.time()
        return progressed

    def _rerun_alone(self, root, case, tier, seed, on_done):
        w = self._spawn(root, 90, 1, tier, seed, only=f"{case[0]}:{case[1]}",
                        tag=f"_{case[0]}_{case[1]}")
        while True:
            self._poll(w, on_done)
            if w["ended"]:
                self._kill(w)
                return "ok", ""
            if w["p"].poll() is not None:
                self._poll(w, on_done)
                if w["ended"]:
                    return "ok", ""
                return "crash", open(w["err"], errors="replace").read()[-4000:]
            if time.time() - w["last"] > self.hang_s:
                try:
                    w["p"].send_signal(signal.SIGUSR1)
                    time.sleep(1)
                except Exception:
                    pass
                self._kill(w)
                return "hang", open(w["err"], errors="replace").read()[-6000:]
            time.sleep(0.05)

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--worker", action="store_true")
        ap.add_argument("--shard", type=int, default=0)
        ap.add_argument("--nshards", type=int, default=1)
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        ap.add_argument("--scratch")
        ap.add_argument("--out")
        ap.add_argument("--skip", type=int, default=0)
        ap.add_argument("--only")
        ap.add_argument("--replay")
        ap.add_argument("--case", help="family:index, run in this process, verbose")
        args = ap.parse_args()
        if args.tier not in ("quick", "thorough"):
            args.tier = "quick"
        if args.worker:
            try:
                return self._worker(args)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
        if args.replay:
            rp = json.load(open(args.replay))
            args.seed, args.tier, args.case = rp["seed"], rp["tier"], rp["case"]
        if args.case:
            fam, idx = args.case.rsplit(":", 1)
            scratch = tempfile.mkdtemp(prefix=f"vf_{self.prop}_")
            os.environ["TMPDIR"] = scratch
            os.environ["HOME"] = scratch
            os.environ["VERIF_SCRATCH"] = scratch
            os.environ["HAMILTON_TELEMETRY_ENABLED"] = "false"
            os.environ["HAMILTON_AUTOLOAD_EXTENSIONS"] = "0"
            tempfile.tempdir = None
            import logging
            logging.disable(logging.CRITICAL)
            import warnings
            warnings.filterwarnings("ignore")
            os.chdir(scratch)
            self._setup()
            ctx, err = self._run_case(fam, int(idx), args.seed, args.tier, scratch)
            print(json.dumps(dict(counters=ctx.counters, sigs=ctx.sigs, viol=ctx.violations,
                                  err=err, sample=ctx.sample_), indent=1))
            shutil.rmtree(scratch, ignore_errors=True)
            sys.stdout.flush()
            os._exit(1 if ctx.violations else (2 if err else 0))
        rc = self._parent(args)
        sys.stdout.flush()
        sys.exit(rc)

    def _parent(self, args):
        t0 = time.time()
        tier, seed = args.tier, args.seed
        root = tempfile.mkdtemp(prefix=f"vf_{self.prop}_")
        counters, sigs, samples, viols, errs = {}, set(), [], {}, []
        fam_done, fam_samples, fam_secs = {}, {}, {}
        known = known_findings()
        evaluations, first_new = [0], []

        def add_viol(key, v, case):
            viols.setdefault(key, dict(v=v, case=case, n=0))
            viols[key]["n"] += 1
            if (self.prop, key) not in known and not first_new:
                first_new.append(time.time())

        def on_done(m):
            evaluations[0] += 1
            fam_secs[m["c"][0]] = fam_secs.get(m["c"][0], 0) + m.get("dt", 0)
            fam_done[m["c"][0]] = fam_done.get(m["c"][0], 0) + 1
            for k, n in m["counters"].items():
                counters[k] = counters.get(k, 0) + n
            sigs.update(m["sigs"])
            if m["sample"] is not None and fam_samples.get(m["c"][0], 0) < 2:
                fam_samples[m["c"][0]] = fam_samples.get(m["c"][0], 0) + 1
                samples.append(dict(case=f"{m['c'][0]}:{m['c'][1]}", sample=m["sample"]))
            for v in m["viol"]:
                add_viol(v["key"], v, m["c"])
            if m["err"]:
                errs.append((m["c"], m["err"]))

        inconclusive = []
        try:
            total = len(self._cases(tier))
            n = min(self.workers, max(1, total))
            ws = [self._spawn(root, k, n, tier, seed) for k in range(n)]
            stop = False
            while ws and not stop:
                if time.time() - t0 > TOTAL_S[tier]:
                    inconclusive.append("overall time limit reached")
                    break
                if first_new and time.time() - first_new[0] > AFTER_VIOLATION_S[tier]:
                    break      # the verdict is settled; more cases would only add detail
                for w in list(ws):
                    self._poll(w, on_done)
                    if w["ended"]:
                        ws.remove(w)
                        self._kill(w)
                        continue
                    dead = w["p"].poll() is not None
                    if dead:
                        self._poll(w, on_done)
                        if w["ended"]:
                            ws.remove(w)
                            continue
                    hung = time.time() - w["last"] > self.hang_s
                    if not (dead or hung):
                        continue
                    case = w["cur"]
                    if hung and not dead:
                        try:
                            w["p"].send_signal(signal.SIGUSR1)
                            time.sleep(1)
                        except Exception:
                            pass
                    self._kill(w)
                    ws.remove(w)
                    tail = open(w["err"], errors="replace").read()[-3000:]
                    if case is None:
                        errs.append((["worker", w["k"]], f"worker died outside a case\n{tail}"))
                        continue
                    st, out = self._rerun_alone(root, case, tier, seed, on_done)
                    if st == "ok":
                        # not reproducible: inconclusive evidence only, counted, never a verdict
                        counters["transient_" + ("hang" if hung else "crash")] = counters.get(
                            "transient_" + ("hang" if hung else "crash"), 0) + 1
                    else:
                        add_viol(f"{st}:{case[0]}",
                                 dict(key=f"{st}:{case[0]}",
                                      msg=f"case {case} makes no progress / kills the process, twice",
                                      details=dict(dump=out)), list(case))
                        stop = True
                        break
                    ws.append(self._spawn(root, w["k"], n, tier, seed,
                                          skip=w["skip"] + w["ndone"] + 1,
                                          tag=w["tag"] + "r"))
                time.sleep(0.05)
            for w in ws:
                self._kill(w)
        finally:
            shutil.rmtree(root, ignore_errors=True)

        known_hit = {k: v for k, v in viols.items() if (self.prop, k) in known}
        new = {k: v for k, v in viols.items() if (self.prop, k) not in known}
        if not new:
            for r in self.required:
                if counters.get(r, 0) == 0:
                    inconclusive.append(f"required observation '{r}' never happened")
            for (p, k), what in known.items():
                if p == self.prop and k not in known_hit:
                    print(f"note: listed finding {k} did not reproduce on this tree: {what}")
        wall = round(time.time() - t0, 2)
        ev = dict(
            property=self.prop, tier=tier, seed=seed, level=self.level,
            coverage=dict(
                evaluations=evaluations[0], distinct_nontrivial=len(sigs), rule=self.rule,
                samples=samples[:12] or ["(no sample recorded)"],
                observed={k: counters[k] for k in sorted(counters)},
                cases_per_family={k: fam_done[k] for k in sorted(fam_done)},
                cpu_seconds_per_family={k: round(v, 1) for k, v in sorted(fam_secs.items())},
                known_findings_reproduced=sorted(known_hit),
                inconclusive=inconclusive,
            ),
            assumptions=self.assumptions, wall_s=wall, violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(known_hit):
            print(f"KNOWN-FINDING: property={self.prop} {k} {known[(self.prop, k)]}")
        print(f"{self.prop} tier={tier} seed={seed}: {evaluations[0]} cases, {len(sigs)} distinct, "
              f"{counters.get('oracle_evaluations', 0)} oracle evaluations, {wall}s")
        if new:
            for i, (k, v) in enumerate(sorted(new.items())):
                safe = "".join(c if c.isalnum() else "_" for c in k)[:80]
                rp = os.path.join(VERIF, "evidence", "replay", f"{self.prop}_{safe}.json")
                with open(rp, "w") as f:
                    json.dump(dict(property=self.prop, seed=seed, tier=tier,
                                   case=f"{v['case'][0]}:{v['case'][1]}", violation=v["v"],
                                   count=v["n"]), f, indent=1)
                print(f"VIOLATION property={self.prop} replay={rp}")
                print(f"  key={k} count={v['n']} case={v['case']}\n  {v['v']['msg'][:700]}")
                if i >= 9:
                    break
            if errs:
                print(f"  ({len(errs)} harness errors besides; first: {errs[0][0]} "
                      f"{errs[0][1][-600:]})")
            return 1
        if errs:
            print(f"HARNESS-ERROR in {len(errs)} case(s); first: {errs[0][0]}\n{errs[0][1][-3000:]}")
            return 2
        if inconclusive:
            print("INCONCLUSIVE: " + "; ".join(inconclusive))
            return 2
        return 0


def blame(e):
    """Deepest code location inside /repo that the exception passed through (function name), or
    None if it never touched the code under test."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        found = None
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(REPO + "/"):
                found = f"{os.path.basename(fn)}"
            tb = tb.tb_next
        if found:
            return found
        e = e.__cause__ or e.__context__
    return None
