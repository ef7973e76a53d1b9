#!/usr/bin/env python3
"""Decides one property.

  check.py <ID> [quick|thorough]

1. vx extracts the functions under contract from /repo's current source into Verus input.
2. Verus discharges every obligation (and a second run shows that no function is vacuous).
3. The native search (the real program, compiled for the host, against a reference model) runs as a
   labelled bounded complement.  It supplies a concrete failing input when an obligation fails, and
   stands in (bounded) for a function that cannot be extracted.

exit 0: the property held.  exit 1 plus a VIOLATION line: it did not.  exit 2: no answer.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from config import PROPS, TEMPLATE_RLIMIT, ALLOW_VACUOUS  # noqa: E402
import build  # noqa: E402

SRC = "/repo/programs/openbook-v2/src"
CONTRACTS = os.path.join(ROOT, "contracts")


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def env():
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


TRUST = re.compile(r"\b(assume\s*\(|admit\s*\(|external_body|assume_specification|external_fn_specification|axiom\s+fn|broadcast\s+axiom|exec_allows_no_decreases_clause)")


def verify(tmpl, work, vacuity):
    """Extracts and verifies one template; returns a result dict."""
    tag = tmpl + ("-vac" if vacuity else "")
    out = os.path.join(work, tag.replace("-", "_") + ".rs")
    rep = os.path.join(work, tag + ".json")
    r = {"template": tmpl, "vacuity": vacuity, "state": "ok", "failed": [], "notes": [], "solver_s": 0.0, "verified": 0, "errors": 0}
    rc, so, se = sh([build.VX, tmpl + ".rs", SRC, CONTRACTS, out, rep] + (["--vacuity"] if vacuity else []), 60)
    r["extract"] = json.load(open(rep)) if os.path.exists(rep) else {}
    if rc != 0:
        r["state"] = "unextractable"
        r["notes"].append(se.strip()[-2000:])
        return r
    text = open(out).read()
    tr, used = trusted_items(text)
    r["trusted"] = sorted(set(tr))
    r["used"] = sorted(set(used))
    rl = TEMPLATE_RLIMIT.get(tmpl, 30)
    cmd = ["verus", out, "--crate-type", "lib", "--output-json", "--time-expanded", "--triggers-mode", "silent", "--error-format=json", "--rlimit", str(rl), "--num-threads", "4"]
    if vacuity:
        cmd += ["--multiple-errors", "0"]
    t0 = time.time()
    rc, so, se = sh(cmd, 700, cwd=work, env=env())
    r["wall_s"] = round(time.time() - t0, 2)
    r["cmd"] = " ".join(cmd)
    diags = []
    for l in se.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        j = json.loads(so[so.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    r["verified"] = vr.get("verified", 0)
    r["errors"] = vr.get("errors", 0)
    tm = j.get("times-ms", {})
    try:
        r["solver_s"] = round(tm["smt"]["total"] / 1000.0, 2)
    except (KeyError, TypeError):
        pass
    if rc == 124:
        r["state"] = "timeout"
        return r
    fns = r["extract"].get("functions", [])
    for d in diags:
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        prim = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
        allsp = d.get("spans", [])
        # an assertion, postcondition, ... belongs to the function whose body contains a span
        line = prim[0]["line_start"] if prim else 0
        fn = None
        for s in ([x for x in allsp if x not in prim] + prim) if "postcondition" in msg else prim + allsp:
            for f in fns:
                if f["start"] <= s["line_start"] <= f["end"]:
                    fn = f
                    break
            if fn:
                break
        e = {"message": msg, "line": line, "function": fn["path"] if fn else None, "file": fn["file"] if fn else None,
             "src_line": fn["line"] if fn else None,
             "text": (prim[0]["text"][0]["text"].strip() if prim and prim[0].get("text") else ""),
             "rendered": d.get("rendered", "")[:3000]}
        if "esource limit" in msg or "rlimit" in msg:
            e["kind"] = "rlimit"
        elif is_obligation(msg):
            e["kind"] = "obligation"
        else:
            e["kind"] = "unsupported"
        r["failed"].append(e)
    if not vr and not r["failed"]:
        r["state"] = "tool-error"
        r["notes"].append(se[-3000:])
    elif any(e["kind"] == "unsupported" for e in r["failed"]):
        r["state"] = "unsupported"
    elif r["failed"] or r["errors"]:
        r["state"] = "failed"
    elif r["verified"] == 0:
        r["state"] = "tool-error"
        r["notes"].append("no obligations")
    return r


def is_obligation(msg):
    return any(k in msg for k in (
        "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
        "possible arithmetic underflow/overflow", "possible division by zero", "loop invariant", "decreases not satisfied",
        "possible bit shift", "index out of bounds", "recommendation not met", "unable to prove", "assert_by", "not satisfied",
        "might be out of bounds", "possible bit", "assertion not satisfied"))


def trusted_items(text):
    """What the text takes on trust, and the contracts it uses that another template proves."""
    out, used = [], []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        m = TRUST.search(l)
        if not m or l.strip().startswith("//"):
            continue
        k = m.group(1).strip().rstrip("(").strip()
        name = ""
        for x in lines[i:i + 4]:
            n = re.search(r"\bfn\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]", x)
            if n:
                name = n.group(1) or n.group(2)
                break
        by = re.search(r"/\*proved in (\S+?)\*/", l)
        (out if not by else used).append(f"{k} {name}".strip() if not by else f"{name} ({by.group(1)})")
    return out, used


def vacuous(r):
    """Functions whose closing assert(false) was accepted."""
    hit = set()
    for e in r["failed"]:
        if e["function"]:
            hit.add(e["function"])
    return [f["path"] for f in r["extract"].get("functions", []) if f["path"] not in hit and f["path"] not in ALLOW_VACUOUS]


def native(prop, seed, secs, out, tier):
    """Runs the native search.  Returns dict(state, desc, replay, stats)."""
    if not PROPS[prop].get("native"):
        return {"state": "none"}
    ok, log = build.replay()
    if not ok:
        return {"state": "unbuildable", "log": log[-3000:]}
    if os.path.exists(out):
        os.remove(out)
    rc, so, se = sh([build.SIM, "search", "--prop", prop, "--seed", str(seed), "--secs", str(secs), "--out", out], secs * 3 + 120)
    st = {}
    for l in so.splitlines():
        if l.startswith("STATS "):
            st = json.loads(l[6:])
    if rc == 1 and os.path.exists(out):
        d = [l[8:] for l in so.splitlines() if l.startswith("FAILING ")]
        return {"state": "failing", "desc": d[0] if d else "", "replay": out, "stats": st}
    if rc == 0:
        return {"state": "quiet", "stats": st}
    return {"state": "error", "log": (so + se)[-3000:]}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(ROOT, "target", "work", prop)
    os.makedirs(work, exist_ok=True)
    repdir = os.path.join(ROOT, "target", "replays")
    os.makedirs(repdir, exist_ok=True)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, prop + ".json")
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    ok, log = build.vx()
    if not ok:
        print("extractor build failed\n" + log, file=sys.stderr)
        return 2
    # a template entry may name the functions this property depends on; failures elsewhere in the
    # template are then another property's business
    only = {}
    tm = []
    for x in cfg["templates"]:
        if isinstance(x, str):
            tm.append(x)
        else:
            tm.append(x[0])
            only[x[0]] = set(x[1])
    jobs = [(t, False) for t in tm] + [(t, True) for t in tm]
    nout = os.path.join(repdir, prop + ".replay.json")
    secs = cfg.get("secs", 20) if tier == "quick" else cfg.get("secs_thorough", 120)
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
        nf = ex.submit(native, prop, seed, secs, nout, tier)
        fs = [ex.submit(verify, t, work, v) for t, v in jobs]
        res = [f.result() for f in fs]
        nat = nf.result()
    main_res = [r for r in res if not r["vacuity"]]
    vac_res = [r for r in res if r["vacuity"]]

    obligations_failed, standin, notes, notes_other = [], [], [], []
    for r in main_res:
        lost = r["extract"].get("lost_hints", [])
        if r["state"] == "ok":
            continue
        if r["state"] == "failed":
            for e in r["failed"]:
                name = e["function"] or "lemma"
                if r["template"] in only and e["function"] and e["function"] not in only[r["template"]]:
                    notes_other.append(f"{r['template']}:{name}: fails, not part of this property")
                    continue
                if e["kind"] == "rlimit":
                    standin.append(f"{r['template']}:{name}: solver resource limit")
                elif not e["function"]:
                    standin.append(f"{r['template']}: lemma no longer provable ({e['message']})")
                elif any(x.startswith(e["function"] + ":") for x in lost):
                    standin.append(f"{r['template']}:{name}: proof annotations no longer fit the function's shape")
                else:
                    obligations_failed.append((r["template"], e))
        else:
            why = r["state"]
            det = r["notes"][-1][:400] if r["notes"] else "; ".join(e["message"][:160] for e in r["failed"][:3])
            standin.append(f"{r['template']}: {why}: {det}")
    vac = {r["template"]: vacuous(r) for r in vac_res if r["state"] in ("failed", "ok")}
    vac = {k: [x for x in v if k not in only or x in only[k]] for k, v in vac.items()}
    vac = {k: v for k, v in vac.items() if v}
    for k, v in vac.items():
        standin.append(f"{k}: vacuous: {', '.join(v)}")

    violations = []
    if nat["state"] == "failing":
        violations.append({"replay": nat["replay"], "what": nat["desc"], "kind": "failing input on the real program"})
    if obligations_failed and not violations:
        more = native(prop, seed + 1000, cfg.get("secs_more", 60), nout, tier)
        if more["state"] == "failing":
            nat = more
            violations.append({"replay": more["replay"], "what": more["desc"], "kind": "failing input on the real program"})
    nfi = None
    if obligations_failed:
        nfi = os.path.join(repdir, prop + ".obligation.txt")
        with open(nfi, "w") as f:
            for t, e in obligations_failed:
                f.write(f"failed obligation: {e['message']}\n  template {t}, function {e['function']} ({SRC}/{e['file']}:{e['src_line']})\n  {e['text']}\n{e['rendered']}\n")
            f.write("\nverifier command: " + "; ".join(r.get("cmd", "") for r in main_res) + "\n")
        if not violations:
            violations.append({"replay": nfi, "what": "; ".join(f"{e['function']}: {e['message']}: {e['text']}" for _, e in obligations_failed[:4]), "kind": "failed obligation, no failing input found"})
    if standin and not violations:
        more = native(prop, seed + 2000, cfg.get("secs_standin", 60), nout, tier)
        if more["state"] == "failing":
            nat = more
            violations.append({"replay": more["replay"], "what": more["desc"], "kind": "failing input on the real program"})
        elif more["state"] in ("error", "unbuildable", "none") and nat["state"] != "quiet":
            notes.append("no stand-in available: " + more["state"])

    total = sum(r["verified"] + r["errors"] for r in main_res)
    done = sum(r["verified"] for r in main_res)
    fns = []
    for r in main_res:
        r["shown"] = [f for f in r["extract"].get("functions", []) if r["template"] not in only or f["path"] in only[r["template"]]]
    for t, o in only.items():
        have = {f["path"] for r in main_res if r["template"] == t for f in r["shown"]}
        if o - have and not standin:
            notes.append(f"{t}: not extracted: {sorted(o - have)}")
    for r in main_res:
        bad = {e["function"] for e in r["failed"]}
        for f in r["shown"]:
            fns.append(f"{f['file']}:{f['line']} {f['path']}" + (" [FAILED]" if f["path"] in bad else ""))
    trusted = sorted({f"{r['template']}: {x}" for r in main_res for x in r.get("trusted", [])})
    used = sorted({x for r in main_res for x in r.get("used", [])})
    dropped = sorted({x for r in main_res for x in r["extract"].get("dropped", [])})
    inl = sorted({x for r in main_res for x in r["extract"].get("inlined", [])})
    proved = not standin and not violations
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "other",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "obligations": total, "discharged": done,
            "checker_cmd": f"python3 tools/check.py {prop} {tier}",
            "trusted_base": trusted,
            "contracts_used_and_proved_in": used,
            "functions_under_contract": fns,
            "inlined_functions": inl,
            "dropped_by_extraction": dropped,
            "lost_hints": sorted({x for r in main_res for x in r["extract"].get("lost_hints", [])}),
            "back_end": "Verus 0.2026.09.13 / Z3",
            "solver_s": round(sum(r["solver_s"] for r in main_res), 2),
            "templates": [{"template": r["template"], "state": r["state"], "verified": r["verified"], "errors": r["errors"], "solver_s": r["solver_s"]} for r in main_res],
            "vacuity": {"functions_shown_reachable": sum(len(r["extract"].get("functions", [])) for r in vac_res) - sum(len(v) for v in vac.values()), "vacuous": vac},
            "bounded_standins": standin,
            "bounded_native_search": {k: nat.get(k) for k in ("state", "stats", "desc") if k in nat},
        },
        "assumptions": cfg.get("assumptions", []) + trusted,
        "violations": violations,
        "notes": notes + notes_other,
    }
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for s in standin:
        print("BOUNDED stand-in (not proved): " + s)
    for r in main_res:
        print(f"{r['template']}: {r['state']}, {r['verified']} verified, {r['errors']} errors, solver {r['solver_s']} s")
    print("native search: " + nat["state"] + " " + json.dumps(nat.get("stats", {})))
    if nat["state"] in ("unbuildable", "error"):
        print(nat.get("log", ""), file=sys.stderr)
    if violations:
        v = violations[0]
        print("violated: " + v["what"][:1500])
        tail = "" if v["kind"].startswith("failing input") else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={v['replay']}{tail}")
        return 1
    if notes or nat["state"] in ("error",) or (standin and nat["state"] not in ("quiet",)):
        print("no answer: " + "; ".join(notes + standin), file=sys.stderr)
        return 2
    print(f"{prop} held: {done} of {total} obligations discharged")
    return 0


if __name__ == "__main__":
    sys.exit(main())
