#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only INDEX,...] [--keep]

Builds the harness from /repo's working tree (tag verif), runs the property's
trials in worker processes, and judges what their monitors reported.
exit 0: the property held on everything explored
exit 1: a line VIOLATION property=<id> replay=<path> was printed
exit 2: the check itself could not decide (build error, too little observed)
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

NPROC = 8
IDLE_WALL = 25      # s without CPU use inside a virtual-time trial: nothing can run any more
SPIN_CPU = 120      # s of CPU in one trial (they need well under a second)
HARD_WALL = 780     # s for a whole quick run


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def build(cfg, scratch):
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
    out = os.path.join(scratch, "h.test")
    cmd = ["go", "test", "-vet=off", "-tags", "verif", "-c", "-o", out]
    if cfg.get("race"):
        cmd.insert(3, "-race")
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd + ["."], cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        log(r.stdout[-4000:], r.stderr[-4000:])
        log("the harness does not build against this tree")
        sys.exit(2)
    return out


class Worker:
    def __init__(self, n, exe, prop, idx, scratch, seed, tier, procs, race):
        self.idx, self.n = list(idx), n
        self.out = os.path.join(scratch, f"w{n}.jsonl")
        self.err = os.path.join(scratch, f"w{n}.err")
        env = dict(os.environ, VP_PROP=prop, VP_INDEXES=",".join(map(str, idx)), VP_OUT=self.out, VERIF_SEED=str(seed),
                   VERIF_TIER=tier, VP_PROCS=str(procs), VP_SCRATCH=scratch, GOTRACEBACK="all")
        if race:
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        self.f = open(self.err, "wb")
        self.p = subprocess.Popen([exe, "-test.run", "^TestTrials$", "-test.timeout", "0"], env=env, cwd=scratch,
                                  stdin=subprocess.DEVNULL, stdout=self.f, stderr=self.f, start_new_session=True)
        self.pos, self.buf = 0, b""
        self.cur, self.done = None, {}
        self.t0 = self.tc = time.monotonic()
        self.c_trial = self.c_last = 0.0
        self.reason = None

    def poll(self):
        try:
            with open(self.out, "rb") as f:
                f.seek(self.pos)
                b = f.read()
        except OSError:
            b = b""
        self.pos += len(b)
        self.buf += b
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            r = json.loads(l)
            c = cpu(self.p.pid) or self.c_last
            self.tc, self.c_last, self.c_trial = time.monotonic(), c, c
            if r.get("start"):
                self.cur = r["index"]
            else:
                self.done[r["index"]] = r
                self.cur = None
        rc = self.p.poll()
        if rc is not None:
            return rc
        c = cpu(self.p.pid)
        if c is not None:
            if c - self.c_last > 0.05:
                self.c_last, self.tc = c, time.monotonic()
            if time.monotonic() - self.tc > IDLE_WALL * (4 if self.real else 1):
                self.kill("no goroutine could run any more (blocked for ever)")
            elif c - self.c_trial > SPIN_CPU * (6 if self.long else 1):
                self.kill("the trial used more than %d s of CPU without ending" % SPIN_CPU)
        return None

    def kill(self, why):
        self.reason = why
        try:
            os.killpg(self.p.pid, signal.SIGQUIT)
            time.sleep(1)
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        self.f.close()
        with open(self.err, "rb") as f:
            return f.read().decode("utf8", "replace")


def err_of(w):
    if w.f.closed:
        return w.text
    w.text = w.stderr()
    return w.text


def artefact(err):
    """Virtual time stands still while a goroutine waits for a mutex whose holder sleeps; that is a limit of the
    method, not a deadlock. Recognised in the dump of a killed worker."""
    sleeper = locker = False
    for g in err.split("\n\n"):
        fr = [l for l in g.split("\n")[1:] if l and not l.startswith("\t")]
        if "[sleep" in g.split("\n")[0] and any(f.startswith("time.Sleep") and n.startswith("github.com/teonet-go/tru")
                                              for f, n in zip(fr, fr[1:])):
            sleeper = True
        if any(f.startswith(("sync.(*Mutex).Lock", "sync.(*RWMutex).")) and n.startswith("github.com/teonet-go/tru")
               for f, n in zip(fr, fr[1:])):
            locker = True
    return sleeper and locker


def tru_race(err):
    """Tells whether one of the two accesses of a race report was made by the code under test, not by the harness."""
    rep = err[err.index("WARNING: DATA RACE"):].split("\n\n")
    for part in rep[:2]:
        for l in part.split("\n"):
            l = l.strip()
            if l.startswith("github.com/teonet-go/tru"):
                return True
            if l.startswith("verif/harness"):
                break
    return False


def interesting(err):
    """the part of a crashed worker's output that says why"""
    m = re.search(r"(WARNING: DATA RACE|fatal error:|panic:|SIGQUIT|bubble: )", err)
    return err[m.start():][:60000] if m else err[-8000:]


def main():
    t_start = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = [int(x) for x in args[args.index("--only") + 1].split(",")]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    try:
        rc = run(prop, cfg, tier, seed, only, scratch, t_start)
    finally:
        if "--keep" not in args:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            log("kept", scratch)
    sys.exit(rc)


def run(prop, cfg, tier, seed, only, scratch, t_start):
    exe = build(cfg, scratch)
    log("build %.1f s" % (time.time() - t_start))
    n = cfg["n"][0 if tier == "quick" else 1]
    idx = only if only is not None else list(range(n))
    nb = max(1, cfg.get("batch", 10))
    # trials that are long go first; every batch takes neighbouring indexes
    batches = [idx[i:i + nb] for i in range(0, len(idx), nb)]
    procs = [2, 1, 4, 2, 8, 1, 3, 2]
    nproc = cfg.get("nproc", NPROC)
    active, serial = [], 0
    results, crashes, retried = {}, [], {}
    stop = False
    hard = HARD_WALL if tier == "quick" else 6 * 3600

    def start(b):
        nonlocal serial
        w = Worker(serial, exe, prop, b, scratch, seed, tier, cfg.get("procs") or procs[serial % len(procs)], cfg.get("race"))
        w.real, w.long = cfg.get("real", False), cfg.get("long", False)
        serial += 1
        active.append(w)

    while (batches and not stop) or active:
        while batches and not stop and len(active) < nproc:
            start(batches.pop(0))
        time.sleep(0.02)
        if time.time() - t_start > hard:
            for w in active:
                w.kill("time is up")
            log("time is up: inconclusive")
            return 2
        for w in list(active):
            rc = w.poll()
            if rc is None:
                if stop and not w.reason:
                    w.kill("stopped")
                    active.remove(w)
                continue
            w.poll()
            active.remove(w)
            results.update(w.done)
            for r in w.done.values():
                b = r.get("bubble")
                if b and "main bubble goroutine has exited" in b:
                    if prop == "C14":
                        r["viol"] = (r.get("viol") or []) + ["goroutines were left after every endpoint was closed:\n" + interesting(err_of(w))]
                elif b:
                    r["viol"] = (r.get("viol") or []) + ["an operation never returned, and nothing could run any more: " + b + "\n" + interesting(err_of(w))]
                if any(not any(k in v for k in known(prop)) for v in r.get("viol") or []):
                    stop = True
            if rc == 0 or w.reason == "stopped":
                w.f.close()
                os.unlink(w.err)
                continue
            err = err_of(w)
            left = [i for i in w.idx if i not in w.done]
            if w.cur is None and not left:
                log("worker ended with", rc, "after its trials", err[-2000:])
                crashes.append((w.idx[-1], "the process died after the trials: " + (w.reason or f"exit {rc}"), err))
                stop = True
                continue
            bad = w.cur if w.cur is not None else left[0]
            if "harness:" in err and w.reason is None:
                log(interesting(err))
                log("the harness failed")
                return 2
            if w.reason and not retried.get(bad):
                retried[bad] = True     # confirm a hang before believing it
                log(f"trial {bad}: {w.reason}; once more")
                batches.insert(0, [bad])
                rest = [i for i in left if i != bad]
                if rest:
                    batches.insert(1, rest)
                continue
            if w.reason and not w.real and artefact(err):
                log(f"trial {bad}: virtual time could not advance; undecided")
                results[bad] = {"index": bad, "incon": "a goroutine slept while holding a mutex others wait for"}
                rest = [i for i in left if i != bad]
                if rest:
                    batches.insert(0, rest)
                continue
            if rc == 66 and "DATA RACE" in err and not tru_race(err):
                log(interesting(err))
                log("a race of the harness itself")
                return 2
            why = w.reason or ("data race" if rc == 66 and "DATA RACE" in err else f"the process crashed (exit {rc})")
            crashes.append((bad, why, err))
            stop = True
    return judge(prop, cfg, tier, seed, idx, results, crashes, only, t_start)


def known(prop):
    r = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append(m.group(2))
    except OSError:
        pass
    return r


def judge(prop, cfg, tier, seed, idx, results, crashes, only, t_start):
    kn, hits = known(prop), set()
    viols = []
    for i in sorted(results):
        for v in results[i].get("viol") or []:
            k = next((k for k in kn if k in v), None)
            if k:
                hits.add(k)
            else:
                viols.append((i, v))
    for i, why, err in crashes:
        k = next((k for k in kn if k in err), None)
        if k:
            hits.add(k)
        else:
            viols.append((i, why))
    cnt, sigs, bubbles, incon, vt = {}, set(), 0, [], 0.0
    for i, r in results.items():
        for k, v in (r.get("cnt") or {}).items():
            cnt[k] = cnt.get(k, 0) + v
        if r.get("sig"):
            sigs.add(r["sig"])
        if r.get("incon"):
            incon.append((i, r["incon"]))
        vt += r.get("vtime") or 0
    samples = []
    for i in sorted(results)[:: max(1, len(results) // 5)][:6]:
        r = results[i]
        samples.append({"trial": i, "case": (r.get("desc") or "")[:600], "observed": r.get("cnt") or {}})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": cfg["rule"], "samples": samples,
                       "observed": cnt, "inconclusive": len(incon), "virtual_seconds": round(vt, 1)},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t_start, 1), "violations": len(viols)}
    if cfg.get("exhaustive"):
        ev["coverage"]["exhaustive"] = True
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop}: {len(results)} of {len(idx)} trials, {len(sigs)} distinct, {cnt}, inconclusive {len(incon)}, wall {ev['wall_s']} s")
    for i, m in incon[:5]:
        log("inconclusive", i, m)
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if viols:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        i = viols[0][0]
        path = os.path.join(HERE, "replays", f"{prop}-seed{seed}-trial{i}.json")
        crash = next((interesting(e) for j, w, e in crashes if j == i), None)
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "trial": i,
                       "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 run.py {prop} --only {i}",
                       "violations": [v for j, v in viols if j == i], "case": (results.get(i) or {}).get("desc"),
                       "trace": (results.get(i) or {}).get("trace"), "output": crash,
                       "others": [{"trial": j, "what": v} for j, v in viols if j != i][:50]}, f, indent=1)
        for j, v in viols[:8]:
            log(f"trial {j}: {v}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if only is None:
        if len(results) < len(idx):
            log("trials are missing")
            return 2
        if len(incon) > len(results) * 0.2:
            log("too many inconclusive trials")
            return 2
        for k, v in cfg.get("need", {}).items():
            if cnt.get(k, 0) < v * (1 if tier == "quick" else 3):
                log(f"observed too little: {k} = {cnt.get(k, 0)} < {v}")
                return 2
    return 0


if __name__ == "__main__":
    main()
