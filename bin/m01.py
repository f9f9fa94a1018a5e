"""M01: programs in safe code are executed by Miri, under ThreadSanitizer, and under AddressSanitizer.

Every execution has its own seed of the program (what threads do, where builders fail, where futures are dropped), under Miri also its
own seed of the scheduler and of weak memory, and one of two aliasing models.
"""
import hashlib, json, os, re, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

TRIPLE = "x86_64-unknown-linux-gnu"
SCEN = ["sync", "fallible", "async", "async_locks", "rc", "rc_fallible", "plain", "plain_rc", "serde", "library"]
UB = re.compile(r"error: (Undefined Behavior|memory leaked|the evaluated program (deadlocked|leaked)|deadlock|abnormal termination)|thread panicked while"
                r"|ThreadSanitizer: |AddressSanitizer: |LeakSanitizer: detected|^LEAK |^ALIASED |^REFUSED |UNEXPECTED PANIC|^PANIC ", re.M)


def environment(check, kind):
    e = check.env_base()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = os.path.join(check.ROOT, "target", "native-" + kind)
    if kind == "miri":
        e["MIRI_SYSROOT"] = os.path.join(check.WORK, "miri-sysroot")
    else:
        e["RUSTFLAGS"] = "-Zsanitizer=" + {"tsan": "thread", "asan": "address"}[kind]
        # Findings of the runtime must be told from panics of the program
        e["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=1 second_deadlock_stack=1 report_signal_unsafe=0"
        e["ASAN_OPTIONS"] = "exitcode=67 detect_leaks=1 detect_stack_use_after_return=1"
    return e


def prepare(check, out, kind):
    """Builds programs. Returns a command to be followed by arguments of the program, or None"""
    e = environment(check, kind)
    cwd = os.path.join(check.ROOT, "native")
    if kind == "miri":
        if not os.path.isdir(os.path.join(e["MIRI_SYSROOT"], "lib")):
            rc, so, err = check.sh(["cargo", "miri", "setup"], e, cwd)
            if rc != 0:
                out.trouble.append("no library for Miri: " + err[-1500:])
                return None
        # Builds, and has nothing to run
        cmd = ["cargo", "miri", "run", "--offline", "-q", "--bin", "m01", "--"]
        rc, so, err = check.sh(cmd + ["0", "0"], e, cwd)
    else:
        cmd = [os.path.join(e["CARGO_TARGET_DIR"], TRIPLE, "debug", "m01")]
        std = ["-Zbuild-std"] if kind == "tsan" else []
        rc, so, err = check.sh(["cargo", "build", "--offline", "--target", TRIPLE, "--bin", "m01"] + std, e, cwd)
        if rc == 0:
            rc, so, err = check.sh(cmd + ["0", "0"], e, cwd)
    if rc == 0:
        return cmd
    with out.lock:
        errs = [x for x in check.errors_of(err) if "-->" in x[1]]
        ok, err2 = check.repo_builds(dict(check.env_base()), os.path.join(check.ROOT, "target", "native"))
        if ok and errs and any("src/bin/m01.rs" in x[1] for x in errs):
            out.bad.append((f"{out.pid} compile", "programs which use documented features can't be compiled anymore:\n"
                            + "\n\n".join(x[1] for x in errs[:5]), {"kind": "native", "tool": kind, "args": []}))
        else:
            out.trouble.append(f"can't build for {kind}: " + err[-1500:])
    return None


def one(check, out, kind, cmd, args, flags, limit):
    e = environment(check, kind)
    if flags:
        e["MIRIFLAGS"] = flags
    meta = {"kind": "native", "tool": kind, "args": args, "flags": flags}
    what = f"{kind} {flags} m01 {' '.join(args)}"
    try:
        p = subprocess.run(cmd + args, env=e, cwd=os.path.join(check.ROOT, "native"), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=limit, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        o = o.decode(errors="replace") if isinstance(o, bytes) else o
        with out.lock:
            # Miri tells deadlocks itself. A native program is stuck when threads have been asleep for long: the limit is dozens of times larger than needed.
            if kind != "miri":
                out.bad.append((f"{out.pid} stuck", f"{what}: didn't end in {limit:.0f} s, usually it takes a second\n{o[-1500:]}", meta))
            else:
                out.trouble.append(f"{what}: didn't end in {limit:.0f} s")
        return False
    txt = p.stdout + p.stderr
    with out.lock:
        out.workers += 1
        if "LeakSanitizer has encountered a fatal error" in txt:
            out.add("asan_runs_without_leak_detection", 1)
            txt = txt.split("LeakSanitizer has encountered a fatal error")[0]
            if not UB.search(txt) and "COUNT ops" in txt:
                p.returncode = 0
        if p.returncode != 0:
            m = UB.search(txt)
            if m or p.returncode in (11, 12, 66, 67, 101):
                i = max(0, (m.start() if m else len(txt)) - 300)
                word = m.group(0).strip() if m else "failed"
                out.bad.append((f"{out.pid} {kind} {word}", f"{what}: ended with code {p.returncode}\n{txt[i:i + 2500]}", meta))
            else:
                out.trouble.append(f"{what}: ended with code {p.returncode}\n{txt[-1500:]}")
            return False
        for n, c in re.findall(r"^COUNT (\S+) (\d+)$", p.stdout, re.M):
            out.add(f"{kind}_{n}", int(c))
        if len(out.samples) < 5:
            out.samples.append(what + ": " + " ".join(p.stdout.split())[:400])
        # A program is identified by its seed; an execution under Miri, also by the seed of the scheduler
        for k in range(int(args[1])):
            h = hashlib.blake2b(f"{int(args[0]) + k} {kind if kind != 'miri' else flags}".encode(), digest_size=8).digest()
            out.distinct.add(int.from_bytes(h, "little"))
    return True


def stage(check, out, kind, cmd, secs, workers):
    end = time.time() + secs
    base = (out.seed * 7_368_787 + {"miri": 1, "tsan": 2, "asan": 3}[kind] * 1_000_003) % 1_000_000_000

    def loop(w):
        k = 0
        while (k == 0 or time.time() < end) and not out.bad and not out.trouble:
            first = base + (w * 10_000 + k) * 1000
            if kind == "miri":
                f = f"-Zmiri-seed={first + k} -Zmiri-preemption-rate={[0.01, 0.05, 0.2][k % 3]}"
                if (w + k) % 2:
                    f += " -Zmiri-tree-borrows"
                ok = one(check, out, kind, cmd, [str(first), "10"], f, 300)
            else:
                ok = one(check, out, kind, cmd, [str(first), "400"], "", 120)
            if not ok:
                return
            k += 1

    with ThreadPoolExecutor(max_workers=workers) as ex:
        for f in [ex.submit(loop, w) for w in range(workers)]:
            f.result()


def judge_autos(out, txt):
    """What threads are allowed to do with types. LOST is not about safety: it's for others to tell"""
    meta = {"kind": "native", "tool": "autos", "args": []}
    for l in re.findall(r"^AUTO (.*) (ok|LOST|UNSOUND)$", txt, re.M):
        out.add("auto_traits", 1)
        if l[1] == "UNSOUND":
            out.bad.append((f"{out.pid} autos {l[0].rsplit(' (', 1)[0]}", f"can be sent to or shared by threads (Send, Sync) though what it holds can't: {l[0]}", meta))
    return "COUNT autos_done 1" in txt


def judge_borrow(out, text, msgs):
    """Functions named bad_* must be rejected by the compiler, and good_* accepted"""
    fns = [(n + 1, m.group(1)) for n, l in enumerate(text.splitlines()) if (m := re.match(r" {4}(?:async )?fn ((?:good|bad)_\w+)", l))]
    errs = {n: [] for _, n in fns}
    for m in msgs:
        for ln in [s["line_start"] for s in m["spans"] if s["is_primary"] and s["file_name"].endswith("borrow.rs")]:
            own = [n for st, n in fns if st <= ln]
            if own:
                errs[own[-1]].append(m["message"])
    meta = {"kind": "native", "tool": "borrow", "args": []}
    for n, e in errs.items():
        out.add("lifetime_programs", 1)
        if n.startswith("bad") and not e:
            out.bad.append((f"{out.pid} borrow {n}", f"a program using a value which is gone, or changes, is accepted: {n} of native/src/bin/borrow.rs", meta))
    return not any(e for n, e in errs.items() if n.startswith("good"))


def types(check, out):
    """What the compiler thinks of types: it's what keeps safe programs safe"""
    e = check.env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(check.ROOT, "target", "native")
    cwd = os.path.join(check.ROOT, "native")
    # Built rather than run under the sanitizers
    rc, so, err = check.sh(["cargo", "run", "-q", "--offline", "--bin", "autos"], e, cwd)
    with out.lock:
        if not judge_autos(out, so):
            out.add("auto_traits_unknown", 1)
            out.types_trouble = "auto traits: " + err[-1500:]
    rc, so, err = check.sh(["cargo", "check", "--offline", "--bin", "borrow", "--message-format=json"], e, cwd)
    msgs = []
    for l in so.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "compiler-message" and j["target"]["name"] == "borrow" and j["message"]["level"] == "error":
            msgs.append(j["message"])
    with out.lock:
        # Other errors (of types) keep the compiler from looking at borrows at all
        borrows = [m for m in msgs if (m.get("code") or {}).get("code") in ("E0499", "E0502", "E0505", "E0506", "E0515", "E0596", "E0597", "E0716", "E0382", "E0594", "E0503", "E0521", "E0621", "E0713", "E0310", "E0309")]
        if not borrows or any(m["spans"] and m not in borrows for m in msgs):
            out.types_trouble = "borrows: " + "\n".join(m["rendered"] for m in msgs if m not in borrows)[:1500] + err[-500:]
        elif not judge_borrow(out, open(os.path.join(cwd, "src", "bin", "borrow.rs")).read(), msgs):
            out.types_trouble = "borrows: a proper program is rejected"


def run(check, out, prop):
    out.types_trouble = ""
    th = threading.Thread(target=types, args=(check, out))
    th.start()
    run_programs(check, out, prop)
    th.join()
    if not out.bad and not out.trouble and out.types_trouble:
        out.trouble.append(out.types_trouble)


def run_programs(check, out, prop):
    quick = out.tier == "quick"
    kinds = ["miri", "tsan", "asan"]
    with ThreadPoolExecutor(max_workers=3) as ex:
        cmds = dict(zip(kinds, ex.map(lambda k: prepare(check, out, k), kinds)))
    if out.bad or out.trouble:
        return
    for kind, s in zip(kinds, [35, 12, 8] if quick else [500, 120, 80]):
        stage(check, out, kind, cmds[kind], s, check.NCPU if kind == "miri" else check.NCPU // 2)
        if out.bad or out.trouble:
            return


def replay(check, out, r):
    if r["tool"] in ("autos", "borrow"):
        types(check, out)
        for b in out.bad:
            print("REPRODUCED", b[1][:3000])
        return 1 if out.bad else 0
    cmd = prepare(check, out, r["tool"])
    if cmd and r["args"]:
        for _ in range(1 if r["tool"] == "miri" else 20):
            if not one(check, out, r["tool"], cmd, r["args"], r.get("flags", ""), 300):
                break
    for b in out.bad:
        print("REPRODUCED", b[1][:3000])
    return 1 if out.bad else 0
