"""F01: the crate is built with every combination of its features. A program which uses everything available tells facts to be compared with
predictions; programs which need what is missing must be rejected, and diagnostics must name the feature."""
import hashlib, itertools, json, os, random, re
from mis import line_of

FEATURES = ["sync", "async", "serde", "send_guard"]

FACTS = {
    (): """plain_lazy (false, "a7", true, "a7")
plain_builder_runs 1
plain_clear (Some("a7"), false)
plain_inner (2, 2, 9)
plain_optional (false, None, Some(3), Some(3), false)
plain_mut [1, 2]
plain_clone true
plain_incomplete true
plain_unset_default 5
plain_rc (4, 3, 1)
plain_fallible (Err("zero"), false, Ok(4), true)
plain_send_sync (true, false)
plain_rc_handle_send_sync (false, false)""",
    ("sync",): """sync_lazy (["a7", "a7", "a7", "a7"], 1, true)
sync_mut "a7x"
sync_clear (Some("a7x"), false, None)
sync_lock (1, 1, 5, 6)
sync_optional (false, None, Some(3), Some(3), false)
sync_clone true
sync_incomplete true
sync_rc (3, 1)
sync_mode (Err("zero"), 0, Ok(2), 2)
sync_send_sync (true, true)
sync_rc_handle_send_sync (true, true)
sync_guard_given (true, true)""",
    ("async",): """async_lazy (false, "a1", true, "a1")
async_builder_runs 1
async_mut "a1x"
async_clear (Some("a1x"), false, None)
async_lock (1, 1, 5, 6)
async_optional (false, None, Some(3), Some(3), false)
async_incomplete true
async_future_is_send true
async_rc (Ok(3), Err("zero"), 1)
async_mode 11
async_send_sync (true, true)
async_rc_handle_send_sync (true, true)""",
    ("serde",): """serde_plain ("{\\"a\\":\\"a4\\",\\"b\\":null,\\"c\\":4}", false)
serde_plain_back (true, "x", Some(2), 3, 0)
serde_plain_incomplete true""",
    ("sync", "serde"): """serde_sync ("{\\"a\\":\\"a4\\",\\"b\\":4}", false)
serde_sync_back (false, "a2", 2)""",
    ("async", "serde"): """serde_async ("{\\"a\\":2,\\"b\\":3}", 2)""",
}


def expected(fs):
    e = {}
    for need, text in FACTS.items():
        if all(n in fs for n in need):
            e.update(l.split(" ", 1) for l in text.splitlines())
    if "sync" in fs:
        e["sync_guard_send_sync"] = f"({str('send_guard' in fs).lower()}, true)"
    return e


def lacking(fs, r):
    """Programs, each of them needs a feature which isn't there: (text, line at fault, feature or None when the diagnostic may be any)"""
    progs = []
    word = {"sync": "sync", "async": "r#async", "serde": "serde"}
    extra = ["", "builder", "get", "lazy", "set", "no_new", "default(off)", "clearer"]
    field = ["", "get", "lazy", "set", "optional", "predicate"]
    for f, w in word.items():
        if f in fs:
            continue
        for _ in range(6):
            x = [a for a in r.sample(extra, 2) if a and a != "default(off)"]
            a = x + [w]
            r.shuffle(a)
            progs.append((f"#[fxstruct({', '.join(a)})]\nstruct S {{ f: u32 }}\nimpl S {{ fn build_f(&self) -> u32 {{ 1 }} }}", 0, f))
            y = [a for a in r.sample(field, 1) if a]
            a = y + [w]
            r.shuffle(a)
            progs.append((f"#[fxstruct]\nstruct S {{\n    #[fieldx({', '.join(a)})]\n    f: u32,\n    g: u32,\n}}\nimpl S {{ fn build_f(&self) -> u32 {{ 1 }} }}", 2, f))
        if f == "serde":
            progs.append(("#[fxstruct(serde(\"Shadow\"))]\nstruct S { f: u32 }", 0, f))
            progs.append(("#[fxstruct(serde(deserialize))]\nstruct S { f: u32 }", 0, f))
        else:
            progs.append((f"#[fxstruct(mode({f}))]\nstruct S {{\n    #[fieldx(lazy)]\n    f: u32,\n}}\nimpl S {{ fn build_f(&self) -> u32 {{ 1 }} }}", None, None))
    return progs


def lacks(check, out, env, fs, cargs, r):
    progs = lacking(fs, r)
    if not progs:
        return
    d = os.path.join(check.WORK, "feat")
    os.makedirs(d, exist_ok=True)
    lines, starts = [], []
    for i, (text, _, _) in enumerate(progs):
        lines.append(f"mod p{i} {{ use fieldx::fxstruct;")
        starts.append(len(lines) + 1)
        lines += text.split("\n") + ["}"]
    with open(os.path.join(d, "lacks.rs"), "w") as fh:
        fh.write("\n".join(lines) + "\n")
    rc, so, err = check.sh(["cargo", "check", "--bin", "lacks", "--message-format=json"] + cargs, dict(env, VERIF_GEN=d), os.path.join(check.ROOT, "feat"))
    errs = [[] for _ in progs]
    seen = False
    for l in so.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") != "compiler-message" or j.get("target", {}).get("name") != "lacks" or not j["message"]["level"].startswith("error"):
            continue
        seen = True
        for s in j["message"]["spans"]:
            ln = line_of(s, "/lacks.rs") if s["is_primary"] else None
            if ln:
                i = max(k for k in range(len(starts)) if starts[k] <= ln + 1)
                errs[i].append((ln - starts[i], j["message"]["message"]))
    if not seen:
        out.trouble.append(f"features {fs}: no diagnostics: {err[-1500:]}")
        return
    for (text, line, feature), es in zip(progs, errs):
        out.add("programs_lacking_features", 1)
        out.distinct.add(int(hashlib.md5(f"{fs}{text}".encode()).hexdigest()[:15], 16))
        meta = {"kind": "features", "features": fs}
        if not es and line is not None:
            out.bad.append((f"{out.pid} accepted", f"with features {fs} a program which needs '{feature}' is not rejected:\n{text}", meta))
        elif any("panicked" in m for _, m in es):
            out.bad.append((f"{out.pid} panic", f"with features {fs} the macro panics: {es[:3]}:\n{text}", meta))
        elif feature and not any("feature" in m and feature in m for _, m in es):
            out.bad.append((f"{out.pid} unclear", f"with features {fs} no diagnostic tells that '{feature}' is required: {es[:3]}:\n{text}", meta))
        elif feature and not any(ln == line for ln, m in es if "feature" in m):
            out.bad.append((f"{out.pid} elsewhere", f"with features {fs} the diagnostic doesn't point at line {line}: {es[:3]}:\n{text}", meta))
        else:
            out.add("rejected", 1)


def one(check, out, fs, r, probe_lacks=True):
    env = check.env_base()
    env["CARGO_TARGET_DIR"] = os.path.join(check.ROOT, "target", "feat")
    if "diagnostics" in fs:
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["CARGO_TARGET_DIR"] += "-nightly"
    cargs = ["--offline", "--no-default-features"] + (["--features", ",".join(fs)] if fs else [])
    meta = {"kind": "features", "features": fs}
    cwd = os.path.join(check.ROOT, "feat")
    rc, so, err = check.sh(["cargo", "build", "--bin", "works"] + cargs, env, cwd)
    out.add("combinations", 1)
    if rc != 0:
        errs = [e for e in check.errors_of(err) if "-->" in e[1]]
        ok, err2 = check.repo_builds(check.env_base(), os.path.join(check.ROOT, "target", "harness"))
        if not ok:
            out.trouble.append("the crate itself can't be built with all features: " + err2[-1500:])
        elif errs:
            out.bad.append((f"{out.pid} compile", f"with features {fs} what must be available can't be compiled:\n" + "\n\n".join(e[1] for e in errs[:5]), meta))
        else:
            out.trouble.append(f"can't build with features {fs}: {err[-1500:]}")
        return
    rc, so, err = check.sh([os.path.join(env["CARGO_TARGET_DIR"], "debug", "works")], env, cwd, timeout=100)
    got = dict(re.findall(r"^FACT (\S+) (.*)$", so, re.M))
    exp = expected(fs)
    if rc != 0:
        out.bad.append((f"{out.pid} crash", f"with features {fs} the program ended with code {rc}: {err[-1500:]}", meta))
    for k, v in exp.items():
        out.add("facts", 1)
        out.distinct.add(int(hashlib.md5(f"{fs}{k}".encode()).hexdigest()[:15], 16))
        if k in got and got[k] != v:
            out.bad.append((f"{out.pid} fact {k}", f"with features {fs} {k} is {got[k]}, expected {v}", meta))
        elif k not in got and rc == 0:
            out.trouble.append(f"with features {fs} there was no {k}")
    out.workers += 1
    if len(out.samples) < 4:
        out.samples.append(f"{fs}: {so[:300]}")
    if probe_lacks:
        lacks(check, out, env, fs, cargs, r)


def run(check, out, prop):
    r = random.Random(out.seed)
    combos = [list(c) for n in range(len(FEATURES) + 1) for c in itertools.combinations(FEATURES, n)]
    for fs in combos:
        # send_guard is about guards only: diagnostics are the same with or without it
        one(check, out, fs, r, "send_guard" not in fs or out.tier != "quick")
        if out.bad or out.trouble:
            return
    for fs in [[], ["sync", "serde"], FEATURES] if out.tier == "quick" else combos:
        one(check, out, fs + ["diagnostics"], r, "send_guard" not in fs)
        if out.bad or out.trouble:
            return
    if out.tier != "quick":
        for _ in range(10):
            for fs in combos:
                lacks(check, out, dict(check.env_base(), CARGO_TARGET_DIR=os.path.join(check.ROOT, "target", "feat")), fs,
                      ["--offline", "--no-default-features"] + (["--features", ",".join(fs)] if fs else []), r)
                if out.bad or out.trouble:
                    return


def replay(check, out, r):
    one(check, out, r["features"], random.Random(1))
    for b in out.bad:
        print("REPRODUCED", b[1][:3000])
    return 1 if out.bad else 0
