"""Check driver: runs cases in forked workers, collects solver statistics,
writes evidence, prints VIOLATION / KNOWN-FINDING lines and sets the exit code.

A case returns normally (everything proved), raises Violation (a counterexample
that was replayed against the real code) or raises Inconclusive.
"""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"


class Violation(Exception):
    """A property violation that was reproduced on the real code."""

    def __init__(self, key, what, detail=None):
        super().__init__(what)
        self.key = key
        self.what = what
        self.detail = detail or {}


class Inconclusive(Exception):
    """Solver answered unknown / a construct is outside the encoder."""


class Stats:
    """Per-process statistics of the current case."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.twins = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.encoded = set()
        self.samples = []
        self.violations = []
        self.notes = []

    def export(self):
        return dict(
            queries=self.queries,
            unsat=self.unsat,
            sat=self.sat,
            twins=self.twins,
            solver_s=self.solver_s,
            obligations=self.obligations,
            encoded=sorted(self.encoded),
            samples=self.samples[:4],
            violations=self.violations,
            notes=self.notes[:4],
        )


STATS = Stats()


def encoded(*names):
    STATS.encoded.update(names)


def sample(obj):
    if len(STATS.samples) < 4:
        STATS.samples.append(obj)


def report(key, what, detail=None):
    """Record a violation and carry on with the rest of the case."""
    STATS.violations.append(dict(key=key, what=what, detail=detail or {}))


def nrpy_call(key, fn, *args, **kwargs):
    """Call real nrpy code on an input the property covers; an exception is a failure of the property."""
    try:
        return fn(*args, **kwargs)
    except (Violation, Inconclusive):
        raise
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.format_exc(limit=-6)
        raise Violation(
            key + ":exception",
            f"{key}: {type(e).__name__}: {str(e)[:300]}",
            {"traceback": tb},
        ) from e


def _worker(fn, name, arg, conn, mem_gb):
    STATS.reset()
    resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(200000)
    import threading

    threading.stack_size(512 * 1024 * 1024)
    out = {}

    def body():
        t0 = time.time()
        out.update(name=name, status="ok")
        try:
            fn(arg)
        except Violation as v:
            STATS.violations.append(dict(key=v.key, what=v.what, detail=v.detail))
        except Inconclusive as e:
            out["status"] = "inconclusive"
            out["error"] = str(e) or repr(e)
            out["traceback"] = traceback.format_exc(limit=-3)
        except Exception as e:  # pylint: disable=broad-except
            out["status"] = "error"
            out["error"] = f"{type(e).__name__}: {e}"
            out["traceback"] = traceback.format_exc()
        out["wall"] = time.time() - t0
        out["stats"] = STATS.export()

    os.setpgid(0, 0)
    os.environ["XDG_CACHE_HOME"] = tempfile.mkdtemp(prefix="cache_", dir=os.environ.get("VERIF_TMP"))
    # nrpy prints progress messages: keep them off our stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    try:
        conn.send(out)
    except Exception:  # pylint: disable=broad-except
        out["stats"]["violations"] = [
            dict(key=v["key"], what=v["what"], detail={"repr": repr(v["detail"])[:5000]})
            for v in out["stats"]["violations"]
        ]
        out["stats"]["samples"] = [repr(s)[:500] for s in out["stats"]["samples"]]
        conn.send(out)
    conn.close()
    os._exit(0)


def load_known(pid):
    """known_findings.txt: lines `known: property=<id> key=<key> <text>` / `fixed: ...`."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=" + pid + " key="):
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" ")
                res[key] = text
    return res


class Check:
    def __init__(self, pid, level, assumptions=(), bounds="", explanation="", mem_gb=8.0):
        self.pid = pid
        self.level = level
        self.assumptions = list(assumptions)
        self.bounds = bounds
        self.explanation = explanation
        self.mem_gb = mem_gb
        self.t0 = time.time()
        self.results = []
        self.extra = {}

    def run(self, cases, timeout=600, jobs=None, budget=None):
        """cases: list of (name, fn, arg)."""
        only = os.environ.get("VERIF_ONLY")
        if only:
            cases = [c for c in cases if only in c[0]]
        jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
        pending = list(cases)[::-1]
        running = {}
        ctx = mp.get_context("fork")
        deadline = self.t0 + (budget or (840 if QUICK else 6 * 3600))
        while pending or running:
            while pending and len(running) < jobs:
                name, fn, arg = pending.pop()
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_worker, args=(fn, name, arg, w, self.mem_gb))
                p.start()
                w.close()
                running[p.pid] = (p, r, name, time.time())
            from multiprocessing.connection import wait

            wait([v[1] for v in running.values()], timeout=1.0)
            for pid in list(running):
                p, r, name, t = running[pid]
                res = None
                if r.poll():
                    try:
                        res = r.recv()
                    except EOFError:
                        res = dict(name=name, status="error", error="worker died (EOF)", wall=time.time() - t, stats=Stats().export())
                    p.join()
                elif not p.is_alive():
                    res = dict(name=name, status="error", error=f"worker died rc={p.exitcode}", wall=time.time() - t, stats=Stats().export())
                elif time.time() - t > timeout or time.time() > deadline:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        p.kill()
                    p.join()
                    res = dict(name=name, status="inconclusive", error="timeout", wall=time.time() - t, stats=Stats().export())
                if res is not None:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
                    self.results.append(res)
                    if os.environ.get("VERIF_DEBUG"):
                        print(f"  [{res['status']}] {name} {res['wall']:.1f}s q={res['stats']['queries']} v={len(res['stats']['violations'])} {res.get('error','')}", file=sys.stderr, flush=True)
                        if res.get("traceback"):
                            print(res["traceback"], file=sys.stderr)
                    r.close()
                    del running[pid]
        return self

    def finish(self, coverage_extra=None):
        agg = Stats()
        enc = set()
        viols = []
        errs = []
        samples = []
        for r in sorted(self.results, key=lambda r: r["name"]):
            s = r["stats"]
            agg.queries += s["queries"]
            agg.unsat += s["unsat"]
            agg.sat += s["sat"]
            agg.twins += s["twins"]
            agg.solver_s += s["solver_s"]
            agg.obligations += s["obligations"]
            enc.update(s["encoded"])
            if len(samples) < 8:
                samples += [{"case": r["name"], "sample": x} for x in s["samples"][:1]]
            for v in s["violations"]:
                viols.append((r["name"], v))
            if r["status"] != "ok":
                errs.append((r["name"], r["status"], r.get("error"), r.get("traceback", "")))
        known = load_known(self.pid)
        new = []
        hit = {}
        for name, v in viols:
            if v["key"] in known:
                hit.setdefault(v["key"], v)
            else:
                new.append((name, v))
        cov = dict(
            samples=samples or ["none"],
            cases_list=[r["name"] for r in sorted(self.results, key=lambda r: r["name"])][:400],
            functions_encoded=sorted(enc),
            bounds=self.bounds,
            solver_queries=agg.queries,
            solver_unsat=agg.unsat,
            solver_sat=agg.sat,
            vacuity_twins=agg.twins,
            solver_time_s=round(agg.solver_s, 3),
            inconclusive=[(n, s, (e or "")[:300]) for n, s, e, _ in errs],
            known_findings_hit=sorted(hit),
            explanation=self.explanation + " (one obligation = an equality, bound or reachability assertion over all symbolic values within the bounds; regenerated from /repo's working tree on this run)",
            deciders=["z3", "cbmc where a case names it"],
            trusted_base=["z3", "cbmc", "pycparser", "gcc -E", "/verif/vlib translators"],
        )
        if self.level == "translation_validation":
            cov.update(programs=len(self.results), disagreements_checked=agg.obligations)
        else:
            cov.update(cases=len(self.results), obligations=agg.obligations)
        cov.update(self.extra)
        cov.update(coverage_extra or {})
        ev = dict(
            property=self.pid,
            tier=TIER if TIER in ("quick", "thorough") else "quick",
            seed=SEED,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, v in sorted(hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k] or v['what']}")
        print(
            f"{self.pid}: cases={len(self.results)} obligations={agg.obligations} queries={agg.queries} "
            f"(unsat {agg.unsat}, sat {agg.sat}, twins {agg.twins}) solver={agg.solver_s:.1f}s wall={time.time()-self.t0:.1f}s "
            f"violations={len(new)} inconclusive={len(errs)}"
        )
        if new:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            by = {}
            for name, v in new:
                by.setdefault(v["key"], (name, v))
            for i, (k, (name, v)) in enumerate(sorted(by.items())):
                if i >= 10:
                    print(f"... and {len(by)-10} more")
                    break
                h = hashlib.sha1(k.encode()).hexdigest()[:10]
                path = os.path.join(d, f"{self.pid}-{h}.json")
                with open(path, "w", encoding="utf-8") as f:
                    json.dump(dict(property=self.pid, case=name, **v), f, indent=1, default=str)
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  case {name}: [{k}] {v['what'][:500]}")
            sys.exit(1)
        if errs:
            for n, s, e, tb in errs[:10]:
                print(f"INCONCLUSIVE {self.pid} case {n}: {s}: {str(e)[:400]}")
                if tb:
                    print(tb[-1500:])
            sys.exit(2)
        if not self.results or agg.obligations == 0:
            print("no obligations were generated")
            sys.exit(2)
        sys.exit(0)


def scratch(prefix="verif_"):
    return tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("VERIF_TMP"))


def rmtree(p):
    shutil.rmtree(p, ignore_errors=True)


def unlimit():
    """preexec for replays under AddressSanitizer (which reserves a huge address range)."""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
