#!/usr/bin/env python3
"""Runs the check of a property: check.py PID [--replay FILE]

Builds the harness against /repo's working tree, runs workers, gathers what they have observed, writes evidence/PID.json.
Exit code: 0 - held on everything explored; 1 - violated (VIOLATION lines are printed); 2 - no answer.
"""
import json, os, re, subprocess, sys, time, array, hashlib, shutil, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(ROOT, "work")
NCPU = min(8, os.cpu_count() or 4)

sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS  # noqa: E402


def env_base():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e.pop("RUSTFLAGS", None)
    return e


class Outcome:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = {}
        self.distinct = set()
        self.distinct_extra = 0
        self.samples = []
        self.bad = []            # (sig, msg, replay dict)
        self.notes = []
        self.trouble = []        # reasons for having no answer
        self.workers = 0
        self.per_spec = []
        self.lock = threading.Lock()

    def add(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n


def gen(d, seed, what, crate="harness"):
    """Generates sources for a seed into a directory"""
    os.makedirs(d, exist_ok=True)
    if crate == "vis":
        cmd = [sys.executable, os.path.join(ROOT, "gen", "gvis.py"), d, str(seed)]
    else:
        cmd = [sys.executable, os.path.join(ROOT, "gen", "gen.py"), d, str(seed)] + what
    subprocess.run(cmd, check=True, stderr=subprocess.DEVNULL)


def sh(cmd, env, cwd, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                       text=True, errors="replace")
    return p.returncode, p.stdout, p.stderr


def repo_builds(env, target):
    """Is it possible to build the crate by itself?"""
    rc, _, err = sh(["cargo", "build", "--offline", "-p", "fieldx"], dict(env, CARGO_TARGET_DIR=target),
                    os.path.join(ROOT, "harness"))
    return rc == 0, err


def errors_of(err):
    """Compiler errors: list of (message, text of the block)"""
    blocks, cur = [], None
    for l in err.splitlines():
        if re.match(r"^error(\[E\d+\])?:", l):
            cur = [l]
            blocks.append(cur)
        elif re.match(r"^warning", l):
            cur = None
        elif cur is not None:
            cur.append(l)
    return [(b[0], "\n".join(b)) for b in blocks if "could not compile" not in b[0] and "aborting due to" not in b[0]]


COPIES = ["", "_b", "_c"]


def build(out, bins, gseeds, crate="harness", extra_env=None, cargo_args=None):
    """Builds binaries; generated ones have a copy for each seed. Returns directory with binaries or None"""
    env = env_base()
    if extra_env:
        env.update(extra_env)
    target = os.path.join(ROOT, "target", crate)
    env["CARGO_TARGET_DIR"] = target
    env["VERIF_GEN"] = os.path.join(WORK, "gen-" + out.pid)
    names = []
    if crate == "vis":
        gen(env["VERIF_GEN"], gseeds[0], None, crate)
        names = bins
    else:
        for b in bins:
            if b not in GEN_OF:
                names.append(b)
                continue
            for c, g in zip(COPIES, gseeds):
                gen(os.path.join(env["VERIF_GEN"], b + c), g, GEN_OF[b])
                names.append(b + c)
    cmd = ["cargo", "build", "--offline", "--keep-going"] + (cargo_args or []) + [x for b in names for x in ("--bin", b)]
    try:
        rc, so, err = sh(cmd, env, os.path.join(ROOT, crate))
    except subprocess.TimeoutExpired:
        out.trouble.append("build timed out")
        return None
    if rc == 0:
        return os.path.join(target, "debug")
    errs = errors_of(err)
    ok, err2 = repo_builds(env, target)
    if not ok:
        out.trouble.append("the crate itself can't be built: " + err2[-1500:])
        return None
    inside = [e for e in errs if env["VERIF_GEN"] in e[1] or "proc macro panicked" in e[1] or "-->" in e[1]]
    if not inside:
        out.trouble.append("the harness can't be built: " + err[-1500:])
        return None
    txt = "\n\n".join(e[1] for e in inside[:6])
    out.bad.append((f"{out.pid} compile", "programs which use documented features can't be compiled anymore:\n" + txt,
                    {"kind": "compile", "bins": bins, "gens": gseeds, "crate": crate}))
    return None


# Generated modules used by binaries
GEN_OF = {"conc": ["gconc", "gdep"], "asy": ["gasync"], "dup": ["gclp", "gcls"], "seq": ["gplain", "gsync"], "bld": ["gbld"], "rcs": ["grc"],
          "ser": ["gser", "gserc"], "vis": ["gvis"]}


def run_worker(out, exe, args, env, limit, meta):
    t0 = time.time()
    try:
        p = subprocess.run([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        with out.lock:
            out.trouble.append(f"worker {os.path.basename(exe)} {' '.join(args)} didn't end in {limit:.0f} s")
        return
    tl = [l for l in p.stdout.splitlines() if l.startswith("TALLY ")]
    with out.lock:
        out.workers += 1
        if p.returncode != 0 or not tl:
            sig = f"{out.pid} crash"
            msg = f"worker {os.path.basename(exe)} {' '.join(args)} ended with code {p.returncode}\n{p.stdout[-2000:]}\n{p.stderr[-3000:]}"
            if p.returncode in (-9, -15, 137, 143) or "STUCK" in p.stdout:
                out.trouble.append(msg)
            else:
                out.bad.append((sig, msg, dict(meta, args=args)))
            return
        j = json.loads(tl[-1][6:])
        for k, v in j["counts"].items():
            if k == "struct_configurations":
                out.counts[k] = max(out.counts.get(k, 0), v)
            else:
                out.add(k, v)
        f = [a[4:] for a in args if a.startswith("out=")]
        if f and os.path.exists(f[0]):
            a = array.array("Q")
            with open(f[0], "rb") as fh:
                a.frombytes(fh.read())
            os.unlink(f[0])
            if len(out.distinct) < 8_000_000:
                out.distinct.update(a)
        if len(out.samples) < 6:
            out.samples += j["samples"][:2]
        out.notes += j["notes"][:3]
        for sig, msg in j["bad"]:
            out.bad.append((sig, msg, dict(meta, args=args)))
        if j["counts"].get("stalled"):
            out.trouble.append(f"stalled: {j['notes'][:2]}")


def run_specs(out, d, specs, secs, gseeds, crate="harness"):
    """Specs: list of (bin, args, processes). Everything is run simultaneously, as far as there are enough processors."""
    env = env_base()
    jobs = []
    for si, (b, args, n) in enumerate(specs):
        copies = list(zip(COPIES, gseeds)) if b in GEN_OF and crate == "harness" else [("", gseeds[0])]
        for c, g in copies:
            for k in range(n):
                seed = (out.seed * 1000003 + g * 7919 + si * 101 + k) & 0xFFFFFFFF
                tmp = os.path.join(WORK, f"d-{out.pid}-{g}-{si}-{k}")
                share = secs / len(copies) * (1 if len(copies) == 1 else 1.3)
                a = [f"seed={seed}", f"ms={int(share * 1000)}", f"prop={out.pid}", f"tier={out.tier}"] + args.split() + [f"out={tmp}"]
                jobs.append((os.path.join(d, b + c), a, {"kind": "run", "bin": b, "gens": [g], "crate": crate}))
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        fs = [ex.submit(run_worker, out, e, a, env, secs * 2 + 200, m) for e, a, m in jobs]
        for f in fs:
            f.result()


def load_known():
    known = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=\[(.*?)\] (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def fresh_bad(out):
    known = {(k[0], k[1]) for k in load_known()}
    return [b for b in out.bad if (out.pid, b[0]) not in known]


def finish(out, prop, t0):
    known = load_known()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(WORK, "replay")
    os.makedirs(rdir, exist_ok=True)
    fresh, seen_known = [], []
    for sig, msg, rep in out.bad:
        k = [x for x in known if x[0] == out.pid and x[1] == sig]
        if k:
            if k[0] not in seen_known:
                seen_known.append(k[0])
        else:
            fresh.append((sig, msg, rep))
    evals = sum(out.counts.get(k, 0) for k in prop.get("evals", ["runs"]))
    nd = len(out.distinct) + out.distinct_extra
    if not fresh and not out.trouble:
        if evals == 0 or nd == 0:
            out.trouble.append("nothing was observed")
        for k, mn in prop.get("need", {}).items():
            if out.counts.get(k, 0) < mn:
                out.trouble.append(f"too little was observed: {k}={out.counts.get(k, 0)}, at least {mn} expected")
    ev = {
        "property": out.pid,
        "tier": out.tier,
        "seed": out.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nd,
            "rule": prop["rule"],
            "samples": [s[:1500] for s in out.samples[:5]] or ["none"],
            "observed": dict(sorted(out.counts.items())),
            "workers": out.workers,
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if out.notes:
        ev["coverage"]["notes"] = [n[:500] for n in out.notes[:5]]
    if out.trouble:
        ev["coverage"]["no_answer_because"] = [t[:1000] for t in out.trouble[:5]]
    with open(os.path.join(evdir, f"{out.pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={out.pid} {k[2]}")
    if fresh:
        bysig = {}
        for i, (sig, msg, rep) in enumerate(fresh):
            if bysig.setdefault(sig, 0) >= 2:
                continue
            bysig[sig] += 1
            path = os.path.join(rdir, f"{out.pid}-{i}.json")
            with open(path, "w") as fh:
                json.dump(dict(rep, property=out.pid, sig=sig, message=msg), fh, indent=1)
            print(f"VIOLATION property={out.pid} replay={path}")
            print("    " + f"[{sig}] {msg}"[:3000].replace("\n", "\n    "))
        return 1
    if out.trouble:
        for t in out.trouble[:5]:
            print(f"NO ANSWER: {t}"[:3000])
        return 2
    print(f"OK property={out.pid} evaluations={evals} distinct={nd} wall={ev['wall_s']}s")
    return 0


def replay(pid, path):
    r = json.load(open(path))
    out = Outcome(pid, "quick", 1)
    print(r["message"])
    if r["kind"] == "compile":
        d = build(out, r["bins"], r["gens"], r["crate"])
        for b in out.bad:
            print("REPRODUCED", b[1][:3000])
        return 1 if out.bad else 0
    if r["kind"] == "run":
        d = build(out, [r["bin"]], r["gens"], r["crate"])
        m = re.search(r"replay: (\S+)", r["message"])
        args = [a for a in r["args"] if not a.startswith("out=")] + ["verbose=1"]
        if m:
            args = [a for a in args if not a.startswith("ms=")] + [m.group(1)]
        p = subprocess.run([os.path.join(d, r["bin"])] + args, env=env_base())
        return p.returncode
    if "custom" in PROPS[pid]:
        import importlib
        mod = importlib.import_module(PROPS[pid]["custom"])
        if hasattr(mod, "replay"):
            return mod.replay(sys.modules[__name__], out, r)
    print("no automatic replay for this kind")
    return 2


def main():
    pid = sys.argv[1]
    prop = PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(replay(pid, sys.argv[3]))
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = Outcome(pid, tier, seed)
    try:
        if "custom" in prop:
            import importlib
            mod = importlib.import_module(prop["custom"])
            mod.run(sys.modules[__name__], out, prop)
        else:
            crate = prop.get("crate", "harness")
            gbase = prop.get("gbase", 0) + seed
            specs = prop["quick"] if tier == "quick" else prop.get("thorough", prop["quick"])
            bins = sorted({s[0] for s in specs})
            ncop = 1 if crate == "vis" else prop.get("copies", 2)
            for i in range(prop.get("qrounds", 1) if tier == "quick" else prop.get("rounds", 5)):
                gseeds = [gbase + 1000 * (i * ncop + c) for c in range(ncop)]
                d = build(out, bins, gseeds, crate)
                if d is None:
                    break
                run_specs(out, d, specs, prop.get("secs", 14) if tier == "quick" else prop.get("tsecs", 90), gseeds, crate)
                if fresh_bad(out) or out.trouble:
                    break
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        out.trouble.append(f"the check failed: {e!r}")
    sys.exit(finish(out, prop, t0))


if __name__ == "__main__":
    main()
