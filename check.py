#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decides one property of /repo's working tree.

1. vx extracts the functions under contract from /repo's current source and
   joins them with their contracts (contracts/*.vx); Verus decides every
   obligation.  A second run with `assert(false)` at the start of each function
   must fail there (no precondition or axiom is contradictory).
2. The replay harness (replay/) runs the real code on generated inputs: the
   bounded part, and the search for a failing input when an obligation fails.
"""
import concurrent.futures, json, os, re, subprocess, sys, time
from props_table import PROPS, ASSUME

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
B = os.path.join(V, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()

FAILED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
          "possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift underflow/overflow",
          "decreases not satisfied", "could not prove termination", "unable to prove", "failed this",
          "possible truncation", "recommendation not met", "loop invariant", "requires not satisfied", "index out of bounds")


SHAPES = json.load(open(os.path.join(V, "contracts/shapes.json")))


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e, cwd=cwd)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"


def cargo(dirname, target, extra=(), env=None):
    e = {"CARGO_TARGET_DIR": os.path.join(B, target), "CARGO_TERM_COLOR": "never"}
    e.update(env or {})
    rc, o, err = sh(["cargo", "build", "--offline", *extra], env=e, cwd=dirname)
    return rc, err


def build_vx():
    rc, err = cargo(os.path.join(V, "vx"), "vx", ["--release"])
    if rc:
        print(err[-4000:])
        sys.exit(2)


def build_replay(prop):
    extra = ["--release"]
    if PROPS[prop].get("ffmpeg"):
        extra += ["--features", "ffmpeg"]
    rc, err = cargo(os.path.join(V, "replay"), "replay", extra)
    if rc and PROPS[prop].get("ffmpeg"):
        rc, err = cargo(os.path.join(V, "replay"), "replay", ["--release"])
    if rc:
        return err
    if PROPS[prop].get("tool"):
        rc, err = cargo(REPO, "tool", ["-p", "av-metrics-tool"])
        if rc:
            return err
    return None


def verus(module, vacuity=False):
    """-> dict(status, fns, failed, ...)"""
    d = os.path.join(B, "vc")
    os.makedirs(d, exist_ok=True)
    name = module + ("_vacuity" if vacuity else "")
    rs, mp = os.path.join(d, name + ".rs"), os.path.join(d, name + ".json")
    cmd = [os.path.join(B, "vx/release/vx"), os.path.join(V, "contracts", module + ".vx"), "--repo", REPO,
           "--prelude", os.path.join(V, "contracts"), "--out", rs, "--map", mp, "--locals", os.path.join(V, "contracts/locals.txt")]
    if vacuity:
        cmd.append("--vacuity")
    rc, o, err = sh(cmd, 120)
    if rc:
        m = re.search(r"LOST: .*", o)
        return {"status": "lost", "why": m.group(0) if m else (o + err)[-500:]}
    mapj = json.load(open(mp))
    vcmd = ["verus", rs, "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "20" if not vacuity else "0", "--num-threads", "4"]
    t = time.time()
    rc, o, err = sh(vcmd, 700, cwd=d)
    res = {"cmd": " ".join(vcmd), "map": mapj, "wall": time.time() - t, "rs": rs}
    diags = []
    for l in err.splitlines():
        try:
            diags.append(json.loads(l))
        except ValueError:
            pass
    try:
        j = json.loads(o)
        vr = j["verification-results"]
    except (ValueError, KeyError):
        res.update(status="unsupported", why="; ".join(x["message"] for x in diags if x.get("level") == "error")[:600] or err[-600:])
        return res
    errs = [x for x in diags if x.get("level") == "error" and not x["message"].startswith("aborting due to")]
    if vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("encountered-error") and not vr.get("errors")):
        res.update(status="unsupported", why="; ".join(x["message"] + " " + ";".join(f"line {s['line_start']}" for s in x["spans"][:1]) for x in errs)[:600])
        return res
    res["verified"], res["errors"] = vr["verified"], vr["errors"]
    fb = []
    for m in j["times-ms"]["smt"]["smt-run-module-times"]:
        fb += m.get("function-breakdown", [])
    res["functions"] = [(f["function"], f.get("mode:"), f["success"], f["time-micros"] / 1e6) for f in fb]
    res["smt_s"] = j["times-ms"]["smt"]["total"] / 1000

    def where(x):
        out = []
        for s in x["spans"]:
            if not s["file_name"].endswith(".rs") or os.path.basename(s["file_name"]) != os.path.basename(rs):
                continue
            for f in mapj["fns"]:
                if f["from"] <= s["line_start"] <= f["to"]:
                    out.append((not s["is_primary"], f, s))
        return out

    failed, undecided = [], []
    for x in errs:
        w = where(x)
        # the function whose body is being checked: the one whose span is labelled, else primary
        f = None
        for _, g, s in w:
            if s.get("label") and ("at the end" in s["label"] or "at this" in s["label"] or "before" in s["label"]):
                f = g
        if f is None and w:
            prim = [g for np, g, s in w if not np]
            f = prim[0] if prim else w[0][1]
        entry = {"fn": f["fn"] if f else None, "source": f"{f['source']}:{f['line']}" if f else "contracts", "obligation": x["message"],
                 "text": " | ".join(t["text"].strip() for s in x["spans"] for t in s["text"][:2])[:400], "output": x.get("rendered", "")[:3000]}
        same = f and SHAPES.get(f"{module}:{f['fn']}") == f["loops"]
        if any(k in x["message"] for k in FAILED) and same:
            failed.append(entry)
        elif f and not same:
            # its loops are no longer the ones the invariants were written for
            entry["obligation"] += " (the loops of the function changed)"
            undecided.append(entry)
        else:
            undecided.append(entry)
    res["failed"], res["undecided"] = failed, undecided
    res["status"] = "proved" if vr["errors"] == 0 and not errs else "failed"
    return res


def scan_trust(rs):
    """assumptions left in the verified text"""
    t = open(rs).read()
    out = {"external_body": [], "axiom": [], "assume": 0, "admit": 0, "assume_specification": []}
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:fn|struct|proof fn|broadcast proof fn) (\w+)", t):
        out["external_body"].append(m.group(1))
    for m in re.finditer(r"(?:broadcast )?axiom fn (\w+)", t):
        out["axiom"].append(m.group(1))
    for m in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[([^\]]*)\]", t):
        out["assume_specification"].append(m.group(1).strip())
    out["assume"] = len(re.findall(r"\bassume\(", t))
    out["admit"] = len(re.findall(r"\badmit\(", t))
    return out


def replay(prop, tier, seed, budget, out, env):
    cmd = [os.path.join(B, "replay/release/replay"), "run", prop, "--seed", str(seed), "--tier", tier, "--out", out]
    if budget:
        cmd += ["--budget", str(budget)]
    rc, o, err = sh(cmd, (budget or 240) + 240, env=env)
    try:
        return rc, json.load(open(out)), o + err
    except (OSError, ValueError):
        return rc if rc else 99, None, o + err


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[prop]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(B, "violations")
    os.makedirs(rdir, exist_ok=True)
    build_vx()
    # ---- deductive part
    results, failed, undecided, notes = [], [], [], []
    obligations = discharged = 0
    fns, trust, smt_s, vac_ok, vac_n, cmds = [], {}, 0.0, True, 0, []
    # these functions' own properties run the vacuity check each time
    vac = "hard" not in P or tier != "quick"
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        runs = {(m, v): ex.submit(verus, m, v) for m, _ in P.get("proofs", []) for v in ((False, True) if vac else (False,))}
    for module, wanted in P.get("proofs", []):
        r = runs[module, False].result()
        results.append((module, r))
        if r["status"] in ("lost", "unsupported"):
            undecided.append({"module": module, "why": r["why"]})
            print(f"undecided: {module}: {r['why'][:300]}")
            continue
        cmds.append(r["cmd"].replace(B, ".build"))
        smt_s += r["smt_s"]
        for n in r["map"]["notes"]:
            notes.append(n)
        allfns = {f["fn"]: f for f in r["map"]["fns"]}
        sel = set(allfns) if wanted is None else set(wanted)
        for w in sel - set(allfns):
            undecided.append({"module": module, "why": f"no function {w}"})
        obligations += len([f for f in r["functions"]])
        # a function is selected by its name in the generated file
        bad = {e["fn"] for e in r["failed"]} | {e["fn"] for e in r["undecided"]}
        discharged += len([f for f in r["functions"] if f[2]])
        for n in sel & set(allfns):
            f = allfns[n]
            fns.append({"fn": n, "source": f"{f['source']}:{f['line']}", "module": module, "loops": f["loops"], "clauses": f["clauses"], "proved": n not in bad})
        for e in r["failed"]:
            if e["fn"] not in sel:
                notes.append(f"not of this property: {e['fn']}: {e['obligation']}")
            elif "hard" in P and e["fn"] not in P["hard"]:
                # the property follows from a stronger contract: that one failed, which alone does not break the property
                undecided.append({"module": module, "why": f"the contract of {e['fn']} that implies the property fails: {e['obligation']}"})
            else:
                failed.append(e)
        for e in r["undecided"]:
            if e["fn"] in sel or e["fn"] is None:
                undecided.append({"module": module, "why": f"{e['fn']}: {e['obligation']}"})
        for k, v in scan_trust(r["rs"]).items():
            if isinstance(v, int):
                trust[k] = trust.get(k, 0) + v
            else:
                trust[k] = sorted(set(trust.get(k, [])) | set(v))
        if not vac:
            continue
        v = runs[module, True].result()
        if v["status"] != "failed" and v["status"] != "proved":
            undecided.append({"module": module, "why": "vacuity run: " + v.get("why", "")})
            vac_ok = False
        else:
            reached = {e["fn"] for e in v["failed"] if "assert(false)" in e["text"]}
            vac_n += len(reached & sel)
            for n in sel & set(allfns):
                if n not in reached:
                    vac_ok = False
                    undecided.append({"module": module, "why": f"{n}: assert(false) is provable at its start"})
    for u in undecided:
        print("undecided:", json.dumps(u)[:400])
    for f in failed:
        print(f"failed obligation: {f['fn']} ({f['source']}): {f['obligation']}: {f['text'][:160]}")
    lemma = None
    if P.get("lemma"):
        rc, o, err = sh(P["lemma"], 300, cwd=V)
        lemma = o.strip()
        if rc:
            print("an enumerated fact does not hold:", o, err[-500:])
            sys.exit(2)
    # ---- bounded part: the real code
    berr = build_replay(prop)
    env = {"AVM_TOOL": os.path.join(B, "tool/debug/av-metrics-tool")}
    rj, rc = None, 0
    if berr:
        print("the harness does not build:", berr[-1500:])
        if not failed:
            sys.exit(2)
    else:
        budget = 20 if tier == "quick" else 240
        if failed and tier == "quick":
            rc, rj, log = replay(prop, "quick", SEED, None, os.path.join(B, f"replay_{prop}.json"), env)
            if not (rj and rj["failures"]):
                rc, rj, log = replay(prop, "thorough", SEED, 90, os.path.join(B, f"replay_{prop}.json"), env)
        elif undecided and tier == "quick":
            rc, rj, log = replay(prop, "thorough", SEED, 60, os.path.join(B, f"replay_{prop}.json"), env)
        else:
            rc, rj, log = replay(prop, "thorough", SEED, budget, os.path.join(B, f"replay_{prop}.json"), env)
        if rj is None:
            # the process ended abnormally: a crash of the code under test
            rj = {"evaluations": 0, "distinct": 0, "per_kind": {}, "samples": [], "failures": [{"kind": "process", "seed": SEED, "what": f"the harness ended with status {rc}: {log[-1500:]}"}], "wall_s": 0}
    # ---- known findings
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"KNOWN property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            print(f"KNOWN-FINDING: property={prop} {m.group(2)}")
    violations = 0
    rp = os.path.join(rdir, f"{prop}.txt")
    if failed or (rj and rj["failures"]):
        violations = len(failed) + (len(rj["failures"]) if rj else 0)
        with open(rp, "w") as f:
            f.write(f"property {prop}: {P['title']}\n\n")
            for e in failed:
                f.write(f"failed obligation of {e['fn']} ({e['source']}): {e['obligation']}\n{e['output']}\n")
            if rj:
                for x in rj["failures"]:
                    f.write(f"failing input: kind {x['kind']} seed {x['seed']}: {x['what']}\n")
                    if x["kind"] != "process":
                        f.write(f"  replay: cd {V}/replay && CARGO_TARGET_DIR={B}/replay cargo run --offline --release -- case {prop} {x['kind']} {x['seed']}\n")
    # ---- evidence
    level = P["level"]
    cov = {}
    if P.get("proofs"):
        tb = [f"{k}: {', '.join(v)}" for k, v in trust.items() if isinstance(v, list) and v]
        tb += ["the Verus verifier and its SMT solver Z3", "vx, the mechanical extraction (rules in DESIGN.md)"]
        cov.update(obligations=obligations, discharged=discharged, checker_cmd="; ".join(cmds) or "none ran", trusted_base=tb,
                   functions_under_contract=fns, solver_s=round(smt_s, 2), back_end="verus 0.2026.09.13.671956e / z3",
                   failed_obligations=[{k: e[k] for k in ("fn", "source", "obligation", "text")} for e in failed],
                   undecided=undecided, vacuity={"run": vac, "functions_whose_start_is_reachable": vac_n, "ok": vac_ok},
                   assume_statements=trust.get("assume", 0) + trust.get("admit", 0), extraction_notes=notes[:40])
    if lemma:
        cov["enumerated_facts"] = lemma
    if rj:
        b = {"label": "bounded: never counted as proved", "evaluations": rj["evaluations"], "distinct_nontrivial": rj["distinct"], "per_kind": rj["per_kind"],
             "rule": P["rule"], "samples": rj["samples"][:6], "wall_s": rj["wall_s"]}
        if level == "proof":
            cov["bounded"] = b
        else:
            cov.update({k: v for k, v in b.items() if k != "wall_s"})
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov, "assumptions": ASSUME["all"] + P.get("assume", []),
          "wall_s": round(time.time() - T0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    if rj and rj["failures"]:
        for x in rj["failures"][:3]:
            print(f"failing input: {x['kind']} seed {x['seed']}: {x['what'][:300]}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if failed:
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        sys.exit(1)
    pr = f"{discharged}/{obligations} obligations, " if P.get("proofs") else ""
    print(f"{prop} holds: {pr}{rj['evaluations']} bounded cases, {time.time() - T0:.1f} s")


if __name__ == "__main__":
    sys.path.insert(0, V)
    main()
