"""Case runner, verdicts, evidence and known findings shared by all checks.

A check is a module checks/cNN.py with
    PID, RULE, ASSUMPTIONS, LEVEL
    VARIANT            "plain" (default) or "asan": the build of esmini the cases run against
    cases(rng, tier)   -> list of JSON-able dicts, each with a unique "id" and everything that determines the case
    run(case, out, lib)-> executes one case in a forked child process, in a scratch directory of its own
Verdict: any violation not listed in known_findings.json -> VIOLATION line, exit 1; internal errors -> exit 2.
"""
import fnmatch
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
REPO = os.environ.get("ESMINI_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Out:
    """What a case observed."""

    def __init__(self):
        self.viols = []
        self.evals = 0
        self.fps = set()
        self.samples = []
        self.counts = {}
        self.artifacts = {}
        self.skipped = None
        self.trace = None     # development: a list when VERIF_TRACE is set
        if os.environ.get("VERIF_TRACE"):
            self.trace = []

    def check(self, ok, key, msg, n=1):
        """One evaluation of an oracle. key identifies the kind of failure, msg the instance."""
        self.evals += n
        if not ok:
            self.viol(key, msg() if callable(msg) else msg)
        return ok

    def viol(self, key, msg):
        if len(self.viols) < 20:
            self.viols.append((key, msg))

    def need(self, ok, key, msg):
        """An oracle whose failure makes the rest of the case pointless."""
        self.evals += 1
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg)

    def fp(self, *t):
        """A distinct non-trivial situation that an oracle judged."""
        self.fps.add(hash(t))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:300])

    def art(self, name, text):
        self.artifacts[name] = text


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    return os.environ.get("VERIF_TIER", "quick") or "quick"


def rng_for(pid, *more):
    return random.Random(f"{pid}/{seed()}/" + "/".join(map(str, more)))


def known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def _child(mod, case, lib, resfile, scratch):
    out = Out()
    rc = 0
    os.chdir(scratch)
    dn = os.open(scratch + "/stdio.txt", os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    err = None
    try:
        mod.run(case, out, lib)
    except Violation as v:
        out.viol(v.key, v.msg)
    except BaseException:
        err = traceback.format_exc()
    tmp = resfile + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump((out.__dict__, err), f)
    os.rename(tmp, resfile)
    os._exit(rc)


class Running:
    pass


def _launch(mod, case, lib, base, n, attempt):
    r = Running()
    r.case, r.attempt, r.t0 = case, attempt, time.time()
    r.scratch = f"{base}/{n}_{attempt}"
    os.makedirs(r.scratch)
    r.res = f"{base}/{n}_{attempt}.pkl"
    r.n = n
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        _child(mod, case, lib, r.res, r.scratch)
    r.pid = pid
    return r


def _tail(p, n=3000):
    try:
        s = open(p, errors="replace").read()
        return s if len(s) < 2 * n else s[:n] + "\n...\n" + s[-n:]
    except OSError:
        return ""


def run_cases(mod, cases, lib, timeout, wall_cap):
    """Returns (list of (case, outdict, err, tail), nskipped)."""
    base = tempfile.mkdtemp(prefix="vchk_", dir="/tmp")
    results, pending, running = [], list(enumerate(cases)), []
    pending.reverse()
    t0 = time.time()
    skipped = 0
    try:
        while pending or running:
            while pending and len(running) < JOBS:
                if time.time() - t0 > wall_cap:
                    skipped += len(pending)
                    pending = []
                    break
                n, c = pending.pop()
                running.append(_launch(mod, c, lib, base, n, 0))
            progressed = False
            for r in list(running):
                pid, st = os.waitpid(r.pid, os.WNOHANG)
                limit = timeout * (1 if r.attempt == 0 else 3)
                if pid == 0:
                    if time.time() - r.t0 > limit:
                        try:
                            os.killpg(r.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        os.waitpid(r.pid, 0)
                        running.remove(r)
                        progressed = True
                        if r.attempt == 0:   # a loaded machine is not a hang: once more, with three times the time
                            running.append(_launch(mod, r.case, lib, base, r.n, 1))
                        else:
                            o = Out()
                            o.viol("hang", f"no answer within {limit:.0f} s, twice")
                            results.append((r.case, o.__dict__, None, _tail(r.scratch + "/stdio.txt")))
                    continue
                progressed = True
                running.remove(r)
                if os.path.exists(r.res):
                    od, err = pickle.load(open(r.res, "rb"))
                    os.unlink(r.res)
                    tail = _tail(r.scratch + "/stdio.txt") if (od["viols"] or err) else ""
                else:
                    o = Out()
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                    tail = _tail(r.scratch + "/stdio.txt")
                    import re
                    m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]{0,80}|Assertion [^\n]{0,120}failed)", tail)
                    fr = re.findall(r"#\d+ 0x\w+ in (.{0,90}?) \S*/EnvironmentSimulator/\S*?([\w.]+:\d+)", tail)
                    o.viol("crash", f"process died ({'signal %d' % sig if sig else 'exit %d' % os.waitstatus_to_exitcode(st)}) {m.group(1) if m else ''}"
                           + "".join(f" <- {q[1]} {q[0][:60]}" for q in fr[:4]))
                    od, err = o.__dict__, None
                results.append((r.case, od, err, tail))
                shutil.rmtree(r.scratch, ignore_errors=True)
            if not progressed:
                time.sleep(0.002)
    finally:
        for r in running:
            try:
                os.killpg(r.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(base, ignore_errors=True)
    return results, skipped


def main(mod, only=None, build=True):
    t0 = time.time()
    pid = mod.PID
    variant = getattr(mod, "VARIANT", "plain")
    import build as B
    if build:
        try:
            if hasattr(mod, "build"):
                lib = mod.build(B)
            else:
                path = B.build(variant, ["libesmini.so"])["libesmini.so"]
                import es
                lib = es.load(path)
        except Exception as e:
            print(f"ERROR: {e}")
            return 2
    tb = time.time() - t0
    rng = rng_for(pid, tier())
    cs = mod.cases(rng, tier())
    if only:
        cs = [c for c in cs if fnmatch.fnmatch(str(c["id"]), only)]
    timeout = getattr(mod, "TIMEOUT", 60)
    cap = getattr(mod, "WALL_CAP", {"quick": 420, "thorough": 3000})[tier()]
    results, skipped = run_cases(mod, cs, lib, timeout, cap)
    kn = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    evals, fps, counts, samples = 0, set(), {}, []
    new, hit, errors = [], {}, []
    reasons = {}
    for case, od, err, tail in results:
        evals += od["evals"]
        fps |= od["fps"]
        for k, v in od["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if len(samples) < 8:
            samples += [f"[{case['id']}] {s}" for s in od["samples"][:1]]
        if od.get("skipped"):
            reasons[od["skipped"]] = reasons.get(od["skipped"], 0) + 1
        if err:
            errors.append((case, err, tail))
        if od.get("trace"):
            with open(os.environ["VERIF_TRACE"], "a") as f:
                f.writelines(repr(q) + "\n" for q in od["trace"])
        for key, msg in od["viols"]:
            k = next((k for k in kn if fnmatch.fnmatch(str(case["id"]), k["case"]) and fnmatch.fnmatch(key, k["key"])), None)
            if k:
                hit.setdefault(k["id"], (k, msg))
            else:
                new.append((case, key, msg, od, tail))
    for kid, (k, msg) in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{kid}]")
    rdir = None
    if new:
        rdir = f"{VERIF}/build/replay/{pid}"
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        with open(rdir + "/violations.jsonl", "w") as f:
            for i, (case, key, msg, od, tail) in enumerate(new[:50]):
                f.write(json.dumps({"case": case, "key": key, "msg": msg}, default=str) + "\n")
                if i < 5:
                    for n, t in od["artifacts"].items():
                        with open(f"{rdir}/{i}_{n}", "wb" if isinstance(t, bytes) else "w") as g:
                            g.write(t)
                    if tail:
                        open(f"{rdir}/{i}_stdio.txt", "w").write(tail)
        open(rdir + "/REPLAY.txt", "w").write(
            f"cd {VERIF} && VERIF_SEED={seed()} VERIF_TIER={tier()} python3-vt checks/run.py {pid} --case '<case id>'\n"
            + "\n".join(f"{c['id']}: {k}: {m}" for c, k, m, _, _ in new[:50]) + "\n")
    ev = {
        "property": pid, "tier": tier(), "seed": seed(), "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(fps), "rule": mod.RULE,
                     "samples": samples[:8], "cases": len(results), "cases_not_run": skipped,
                     "cases_without_verdict": reasons, "observed": counts},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "known_findings_seen": sorted(hit),
        "build_s": round(tb, 1),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        p = f"{VERIF}/evidence/{pid}.json"
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
    print(f"{pid}: {len(results)} cases, {evals} evaluations, {len(fps)} distinct situations, {len(new)} violations, "
          f"build {tb:.0f} s, total {time.time()-t0:.0f} s" + (f", no verdict: {reasons}" if reasons else ""))
    for c, k, m, _, _ in new[:12]:
        print(f"  {c['id']}: {k}: {m}"[:600])
    if new:
        print(f"VIOLATION property={pid} replay={rdir}")
        return 1
    if errors:
        for c, e, t in errors[:3]:
            print(f"ERROR in case {c['id']}:\n{e}\n{t[-500:]}")
        print(f"ERROR: {len(errors)} cases ended in an internal error")
        return 2
    if not results or evals == 0:
        print("ERROR: nothing was observed")
        return 2
    return 0
