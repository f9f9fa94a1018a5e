"""The check of X01: runs the macro (by means of the compiler) over programs which must be rejected, programs which must be accepted,
and arbitrary ones; diagnostics are observed."""
import bisect, hashlib, json, os, re, subprocess


def expand(check, gdir, which, extra=()):
    """Runs the compiler, gives (messages, trouble)"""
    env = check.env_base()
    env["VERIF_GEN"] = gdir
    env["CARGO_TARGET_DIR"] = os.path.join(check.ROOT, "target", "mis")
    rc, so, err = check.sh(["cargo", "check", "--offline", "--bin", which, "--message-format=json", *extra], env, os.path.join(check.ROOT, "mis"))
    msgs = []
    seen = False
    for l in so.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") != "compiler-message" or j.get("target", {}).get("name") != which:
            continue
        seen = True
        m = j["message"]
        if m["level"].startswith("error"):
            msgs.append(m)
    return msgs, (None if seen else "the macro can't be built: " + err[-1500:])


def line_of(span, name):
    while name not in span["file_name"] and span.get("expansion"):
        span = span["expansion"]["span"]
    return span["line_start"] if name in span["file_name"] else None


def analyse(out, progs, msgs, which, gseed):
    starts = [p["start"] for p in progs]
    for p in progs:
        p["errs"] = []
    ended = False
    for m in msgs:
        if m["message"] == "the end":
            ended = True
            continue
        ls = [x for x in (line_of(s, f"/{which}.rs") for s in m["spans"] if s["is_primary"]) if x]
        if not ls:
            if m["spans"]:
                out.bad.append((f"{out.pid} astray", f"a diagnostic doesn't point into user's code: {m['rendered'][:1500]}", {"kind": "none"}))
            continue
        i = max(0, bisect.bisect_right(starts, ls[0]) - 1)
        hint = " ".join(c["message"] for c in m["children"])
        progs[i]["errs"].append((ls[0] - progs[i]["start"], m["message"], (m.get("code") or {}).get("code"), hint))
        out.add("diagnostics", 1)

    def bad(sig, p, msg):
        out.bad.append((f"{out.pid} {sig}", f"{msg}\n  program ({p['what']}):\n{p['text']}\n  diagnostics: {[(e[0], e[1]) for e in p['errs'][:4]]}",
                        {"kind": "macro", "program": {k: v for k, v in p.items() if k != "errs"}}))

    for p in progs:
        out.add("runs", 1)
        out.add({"reject": "invalid_programs", "accept": "valid_programs", "fuzz": "arbitrary_programs"}[p["kind"]], 1)
        out.distinct.add(int(hashlib.md5(p["text"].encode()).hexdigest()[:15], 16))
        errs = p["errs"]
        pan = [e for e in errs if "panicked" in e[1]]
        if pan:
            bad("panic", p, f"the macro panicked: {pan[0][3]}")
            continue
        if p["kind"] == "reject":
            if not errs:
                bad("accepted", p, "an invalid program was not rejected")
            elif not any(any(w in e[1] for w in p["mention"]) for e in errs):
                bad("unclear", p, f"diagnostics do not tell what is wrong, none of {p['mention']} is mentioned")
            elif p["line"] is not None and not any(e[0] == p["line"] for e in errs):
                bad("elsewhere", p, f"diagnostics do not point at line {p['line']} of the program")
            else:
                out.add("rejected", 1)
        elif p["kind"] == "accept":
            own = [e for e in errs if e[2] is None]
            if own:
                bad("rejected", p, f"a valid program was rejected: {own[0][1]}")
            else:
                out.add("accepted", 1)
        else:
            out.add("arbitrary_rejected" if errs else "arbitrary_accepted", 1)
    return ended


def run(check, out, prop):
    seeds = [out.seed] if out.tier == "quick" else [out.seed + 1000 * i for i in range(prop.get("rounds", 12))]
    for g in seeds:
        d = os.path.join(check.WORK, f"mis-{g}")
        subprocess.run(["python3", os.path.join(check.ROOT, "gen", "gmis.py"), d, str(g), "3000" if out.tier == "quick" else "12000"], check=True, stderr=subprocess.DEVNULL)
        idx = json.load(open(os.path.join(d, "index.json")))
        for which in ("bad", "good"):
            msgs, trouble = expand(check, d, which)
            if trouble:
                out.trouble.append(trouble)
                return
            ended = analyse(out, idx[which], msgs, which, g)
            if which == "good" and not ended:
                out.trouble.append("valid programs were not processed till the end: " + "; ".join(m["message"] for m in msgs[:3])[:1000])
            out.samples += [f"{p['text']} => {[e[1] for e in p['errs'][:3]]}" for p in idx[which][7::len(idx[which]) // 3]][:3]
        out.workers += 1
        if out.bad or out.trouble:
            return


def replay(check, out, r):
    p = r["program"]
    d = os.path.join(check.WORK, "mis-replay")
    os.makedirs(d, exist_ok=True)
    which = "good" if p["kind"] == "accept" else "bad"
    lines = ["mod p0 { use fieldx::fxstruct; use serde::{Serialize, Deserialize}; #[derive(Debug)] pub struct MyErr;"] + p["text"].split("\n") + ["}"]
    if which == "good":
        lines.append('compile_error!("the end");')
    open(os.path.join(d, which + ".rs"), "w").write("\n".join(lines) + "\n")
    p.update(start=2, end=2 + p["text"].count("\n"))
    msgs, trouble = expand(check, d, which)
    for m in msgs:
        print(m["rendered"])
    analyse(out, [p], msgs, which, 0)
    for b in out.bad:
        print("REPRODUCED", b[1])
    return 1 if out.bad else 0
