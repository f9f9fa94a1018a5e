"""H01: the same structs, and code using them, are put into scopes where names mean different things; what the program tells must be the same."""
import collections, hashlib, json, os, re


def explore(check, out, g, structs, scopes):
    d = os.path.join(check.WORK, f"hyg-{g}")
    rc, so, err = check.sh(["python3", os.path.join(check.ROOT, "gen", "ghyg.py"), d, str(g), str(structs), str(scopes)], check.env_base(), check.ROOT)
    if rc != 0:
        out.trouble.append("generator: " + err[-1500:])
        return
    idx = json.load(open(os.path.join(d, "index.json")))
    starts = [s["start"] for s in idx["scopes"]]
    text = open(os.path.join(d, "hyg.rs")).read().split("\n")
    env = check.env_base()
    env["VERIF_GEN"] = d
    env["CARGO_TARGET_DIR"] = os.path.join(check.ROOT, "target", "hyg")
    meta = {"kind": "hygiene", "seed": g, "structs": structs, "scopes": scopes}
    rc, so, err = check.sh(["cargo", "build", "--offline", "--message-format=json"], env, os.path.join(check.ROOT, "hyg"))
    errs = collections.defaultdict(list)
    exe = None
    for l in so.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact" and j.get("executable"):
            exe = j["executable"]
        if j.get("reason") != "compiler-message" or j["target"]["name"] != "hyg" or not j["message"]["level"].startswith("error"):
            continue
        for s in j["message"]["spans"]:
            # The outermost expansion is in the program
            while s.get("expansion") and "/hyg.rs" not in s["file_name"]:
                s = s["expansion"]["span"]
            if s["is_primary"] and "/hyg.rs" in s["file_name"] and s["line_start"] >= starts[0]:
                k = max(i for i, st in enumerate(starts) if st <= s["line_start"])
                errs[k].append((s["line_start"], j["message"]["message"], j["message"]["rendered"]))
    out.workers += 1
    if rc != 0:
        bad = [k for k in errs if k != 0]
        if errs[0] or not bad:
            # It isn't about names: these structs use documented features, which are matters of other checks
            ok, err2 = check.repo_builds(check.env_base(), os.path.join(check.ROOT, "target", "harness"))
            why = (errs[0][0][2] if errs[0] else (err2 if not ok else err[-1500:]))[:1500]
            if ok and errs[0] and len(errs) == len(starts):
                out.bad.append((f"{out.pid} compile", "programs which use documented features can't be compiled, whatever names are in scope:\n" + why, meta))
            else:
                out.trouble.append("the program can't be compiled: " + why)
            return
        for k in bad[:3]:
            ln, msg, rendered = errs[k][0]
            st = next((text[i] for i in range(ln - 1, starts[k], -1) if "fxstruct(" in text[i]), "")
            out.bad.append((f"{out.pid} names", f"a program is rejected where names mean other things ({idx['scopes'][k]['what']}), and accepted otherwise: {msg}\n  {st}\n{rendered[:1500]}", meta))
        return
    rc, so, err = check.sh([exe], env, check.ROOT, 120)
    logs = collections.defaultdict(list)
    for l in so.splitlines():
        if m := re.match(r"(\d+) (.*)", l):
            logs[int(m[1])].append(m[2])
    usual = logs[0]
    for k in range(len(starts)):
        if k and logs[k] != usual:
            i = next((i for i, (a, b) in enumerate(zip(usual, logs[k])) if a != b), min(len(usual), len(logs[k])))
            w, x = (l[i] if i < len(l) else "nothing" for l in (usual, logs[k]))
            out.bad.append((f"{out.pid} behaviour", f"behaviour depends on names in scope: `{w}` is told usually, `{x}` with {idx['scopes'][k]['what']}\n{err[-800:]}", meta))
            return
        out.add("scopes", 1)
        out.add("structs", idx["structs"])
        out.add("facts", len(logs[k]))
        h = hashlib.md5(f"{g} {idx['scopes'][k]['what']}".encode()).hexdigest()
        for n, l in enumerate(logs[k]):
            out.distinct.add(int(hashlib.md5(f"{h} {n} {l}".encode()).hexdigest()[:15], 16))
    if rc != 0 or "END" not in so:
        out.trouble.append(f"the program ended with {rc}: {err[-1000:]}")
    out.samples += [f"{idx['scopes'][k]['what']}: {logs[k][(7 * k + 3) % len(logs[k])]}" for k in range(1, len(starts), 3) if logs[k]][:3]


def run(check, out, prop):
    quick = out.tier == "quick"
    for i in range(3 if quick else 25):
        explore(check, out, out.seed * 3 + 1_000_000 * (i // 3) + i, 14, 6)
        if out.bad or out.trouble:
            return


def replay(check, out, r):
    explore(check, out, r["seed"], r["structs"], r["scopes"])
    for b in out.bad:
        print("REPRODUCED", b[1][:3000])
    return 1 if out.bad else 0
