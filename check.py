#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree (see DESIGN.md).

1. extract the functions under contract from /repo, attach the contracts, run Verus;
2. run the concrete contract harness (bounded: the functions outside the verifier's reach, and the
   search for a failing input when an obligation fails);
3. write evidence/PROPERTY.json and say what happened.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TD_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
VERUS = shutil.which("verus") or "/usr/local/bin/verus"
ENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
PROVE = ["postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "assertion failure",
         "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied", "recommendation not met",
         "unable to prove", "possible bit shift", "cannot prove", "index out of bounds", "not satisfied", "could not prove termination", "loop invariant"]
RLIMIT = ["Resource limit", "rlimit"]


def sh(cmd, cwd=None, env=None, timeout=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return -999, d(e.stdout), d(e.stderr)


def cargo_build(crate, target):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, target))
    src = os.path.join(HERE, crate)
    if crate == "harness" and REPO != "/repo":  # scratch copies: same sources, other path dependency
        src = os.path.join(BUILD, "harness_src")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, crate), src)
        p = os.path.join(src, "Cargo.toml")
        open(p + ".n", "w").write(open(p).read().replace("/repo/", REPO + "/"))
        os.replace(p + ".n", p)
    cmd = ["cargo", "build", "--offline", "-q"]
    rc, o, e = sh(cmd, cwd=src, env=env, timeout=1500)
    return rc, o + e


# ---------------------------------------------------------------- Verus
VAC_RLIMIT = 1  # a contradiction that is there is found at once


def run_verus(path, extra=(), rlimit=40):
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = [VERUS, os.path.basename(path), "--edition", "2024", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", "4", *extra]
    rc, o, e = sh(cmd, cwd=os.path.dirname(path), env=env, timeout=400)
    js = {}
    k = o.find("{")
    if k >= 0:
        try:
            js = json.loads(o[k:])
        except Exception:
            js = {}
    return rc, js, e


def diagnostics(stderr, fname):
    """[(kind, message, line, block)]"""
    out = []
    for b in re.split(r"\n(?=error|warning|note: )", "\n" + stderr):
        b = b.strip("\n")
        m = re.match(r"(error|warning|note)(\[\w+\])?: (.*)", b)
        if not m or m.group(1) == "warning":
            continue
        if m.group(1) == "note" and not any(x in m.group(3) for x in RLIMIT):
            continue
        if m.group(3).startswith("aborting due"):
            continue
        loc = re.findall(r"--> [^\n]*?%s:(\d+):" % re.escape(fname), b)
        inner = [int(x) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
        out.append((m.group(1), m.group(3), [int(x) for x in loc] + inner, b))
    return out


def fn_of(report, lines):
    for l in lines:
        for r in report:
            if "lines" in r and r["lines"][0] <= l <= r["lines"][1]:
                return r
    return None


def start_vacuity(name, gen, report, work):
    lines = open(gen).read().split("\n")
    ins = []
    for r in report:
        if r["status"] == "ok" and "lines" in r and not r.get("trusted"):
            b = r["body_line"]
            while b <= r["lines"][1] and not lines[b - 1].rstrip().endswith("{"):
                b += 1
            k = b
            while k < r["lines"][1] and (not lines[k].strip() or lines[k].strip().startswith(("hide(", "//"))):
                k += 1
                if lines[k - 1].strip().startswith("hide("):
                    b = k
            ins.append((b, r["fn"]))
    for b, f in sorted(ins, reverse=True):
        lines[b - 1] = lines[b - 1] + " proof { assert(false); }"
    vp = os.path.join(work, name + "_vac.rs")
    open(vp, "w").write("\n".join(lines))
    v = {"ins": ins, "err": ""}

    def go():
        v["err"] = run_verus(vp, ["--multiple-errors", "0"], rlimit=VAC_RLIMIT)[2]

    v["thread"] = threading.Thread(target=go)
    v["thread"].start()
    return v


def verify_module(name, extract, work):
    """one contract module: extraction, proof, vacuity"""
    t0 = time.time()
    res = {"module": name, "functions": [], "failed": [], "undecided": [], "obligations": 0, "discharged": 0, "smt_ms": 0, "output": "", "rewrites": [], "trusted": [], "notes": []}
    tpl = os.path.join(HERE, "contracts", name + ".vrs")
    gen, rep = os.path.join(work, name + ".rs"), os.path.join(work, name + ".json")
    stubs = []
    for attempt in range(8):
        cmd = [extract, REPO, tpl, gen, rep] + (["--stub", ",".join(stubs)] if stubs else [])
        rc, o, e = sh(cmd, timeout=120)
        if rc != 0:
            res["notes"].append("extraction failed: " + (o + e).strip()[:500])
            res["undecided"].append({"fn": "(module)", "why": "extraction failed"})
            return res
        report = json.load(open(rep))
        lost = [r for r in report if r["status"] == "lost" and "lines" in r and r["as"] not in stubs]
        if lost:  # no place for the ghost code: keep the contract, not the proof
            for r in lost:
                stubs.append(r["as"])
                res["undecided"].append({"fn": r["fn"], "why": r["why"]})
            continue
        vac = start_vacuity(name, gen, report, work)
        rc, js, err = run_verus(gen)
        vr = js.get("verification-results", {})
        ds = diagnostics(err, name + ".rs")
        proof_errs = [d for d in ds if any(x in d[1] for x in PROVE) and not any(x in d[1] for x in RLIMIT)]
        rl = [d for d in ds if any(x in d[1] for x in RLIMIT)]
        hard = [d for d in ds if d not in proof_errs and d not in rl and d[0] == "error"]
        if vr.get("encountered-vir-error") or (hard and not vr.get("verified")) or (rc not in (0, 1) and not vr):
            # something Verus cannot take in: stub the functions it names, keep the rest
            bad = []
            for d in hard:
                r = fn_of(report, d[2])
                if r and r["as"] not in stubs and r["as"] not in [b["as"] for b in bad]:
                    bad.append(r)
                    res["undecided"].append({"fn": r["fn"], "why": "not accepted by the verifier: " + d[1][:200]})
            if bad and attempt < 7:
                stubs += [b["as"] for b in bad]
                continue
            res["output"] = err[-6000:]
            res["undecided"].append({"fn": "(module)", "why": "the verifier rejects the extracted text: " + (hard[0][1][:200] if hard else f"exit {rc}")})
            break
        break
    else:
        res["undecided"].append({"fn": "(module)", "why": "no acceptable extraction"})
    report = json.load(open(rep))
    for r in report:
        if r["status"] == "lost" and "lines" not in r:
            res["undecided"].append({"fn": r.get("fn") or r.get("item"), "why": r["why"]})
    vr = js.get("verification-results", {}) if js else {}
    res["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    res["discharged"] = vr.get("verified", 0)
    res["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0) if js else 0
    if any(u["fn"] == "(module)" for u in res["undecided"]):
        res["wall_s"] = time.time() - t0
        return res
    failed = {}
    for d in proof_errs:
        r = fn_of(report, d[2])
        key = r["fn"] if r else "(lemma)"
        failed.setdefault(key, []).append(d)
    for d in rl:
        r = fn_of(report, d[2])
        key = r["fn"] if r else "(lemma)"
        if key not in failed:
            res["undecided"].append({"fn": key, "why": "resource limit"})
    for k, v in failed.items():
        if k == "(lemma)":
            res["undecided"].append({"fn": k, "why": v[0][1]})
        else:
            res["failed"].append({"fn": k, "obligations": [x[1] for x in v], "output": "\n\n".join(x[3] for x in v)[:6000]})
    und = {u["fn"] for u in res["undecided"]} | {f["fn"] for f in res["failed"]}
    for r in report:
        if r["status"] == "ok" and "fn" in r and r["fn"] not in und:
            res["functions"].append({"fn": r["fn"], "path": r["path"], "rewrites": r.get("rewrites", []), "assumed": r.get("trusted", False)})
    text = open(gen).read()
    for m in re.finditer(r"//\s*TRUSTED:\s*(.*)", text):
        res["trusted"].append(m.group(1).strip())
    n_ext = len(re.findall(r"external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|external_fn_specification|broadcast axiom|\baxiom fn", re.sub(r"//.*", "", text)))
    res["assumption_sites"] = n_ext
    # vacuity: an assert(false) at the top of every function has to fail (run beside the proof)
    vac["thread"].join()
    ins = [(b, f) for b, f in vac["ins"] if f not in und]
    hit = set()
    for d in diagnostics(vac["err"], name + "_vac.rs"):
        r = fn_of(report, d[2])
        if r:
            hit.add(r["fn"])
    res["vacuity_probes"] = len(ins)
    res["vacuous"] = sorted({f for _, f in ins} - hit)
    res["wall_s"] = time.time() - t0
    return res


# ---------------------------------------------------------------- harness
def run_harness(prop, seed, tier, limit, total):
    exe = os.path.join(BUILD, "ht", "debug", "tdharness")
    state = os.path.join(BUILD, "state." + prop)
    env = dict(ENV, TD_STATE=state, RUST_MIN_STACK=str(64 << 20))
    if os.path.exists(state):
        os.remove(state)
    rc, o, e = sh([exe, "run", prop, str(seed), tier, str(limit)], env=env, timeout=total)
    if rc == 0 and o.strip():
        return json.loads(o.strip().split("\n")[-1]), e
    # the code under test ended the process: find the case
    found = []
    try:
        for l in open(state, errors="replace"):
            w = l.replace("\0", "").split()
            if len(w) == 2:
                r2, o2, e2 = sh([exe, "case", w[1], str(seed), w[0]], env=env, timeout=120)
                if r2 not in (0, 2):
                    found.append({"suite": w[1], "seed": seed, "index": int(w[0]), "message": f"the process ended with status {r2}: " + (o2 + e2)[-300:].replace("\n", " "), "steps": []})
    except FileNotFoundError:
        pass
    if found:
        return [{"suite": found[0]["suite"], "rule": "", "exhaustive": False, "completed": False, "evaluations": 1, "distinct_nontrivial": 1, "samples": [], "wall_s": 0, "failures": found}], e
    raise RuntimeError(f"harness ended with {rc}: {e[-2000:]}")


def main():
    prop = sys.argv[1]
    if prop == "--build":
        os.makedirs(BUILD, exist_ok=True)
        for c, t in (("extract", "xt"), ("harness", "ht")):
            rc, out = cargo_build(c, t)
            if rc != 0:
                print(out[-3000:])
                return 1
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(os.path.join(HERE, "checks.json")))[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    hb = {}

    def build_harness():
        hb["r"] = cargo_build("harness", "ht")

    th = None
    if cfg.get("harness", True):
        th = threading.Thread(target=build_harness)
        th.start()
    rc, out = cargo_build("extract", "xt")
    if rc != 0:
        print("check: the extractor does not build\n" + out[-3000:])
        return 2
    extract = os.path.join(BUILD, "xt", "debug", "extract")
    work = tempfile.mkdtemp(prefix="vx_", dir=BUILD)
    mods = cfg.get("modules", [])
    results = [None] * len(mods)

    def vm(i):
        results[i] = verify_module(mods[i], extract, work)

    try:
        ths = [threading.Thread(target=vm, args=(i,)) for i in range(len(mods))]
        for k in range(0, len(ths), 4):
            for t in ths[k:k + 4]:
                t.start()
            for t in ths[k:k + 4]:
                t.join()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    suites = []
    if th:
        th.join()
        rc, out = hb["r"]
        if rc != 0:
            print("check: the harness does not build against /repo\n" + out[-3000:])
            return 2
        limit, total = (75, 600) if tier == "quick" else (1800, 14000)
        suites, _ = run_harness(prop, seed, tier, limit, total)

    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["known"] if k["property"] == prop]
    fails, known_hit = [], {}
    for s in suites:
        for f in s["failures"]:
            hit = next((k for k in known if k["suite"] == f["suite"] and k["case"] == (f["steps"][0] if f["steps"] else "")), None)
            if hit:
                known_hit[hit["case"]] = hit
            else:
                fails.append(f)
    proof_fails = [dict(f, module=r["module"]) for r in results for f in r["failed"]]
    undecided = [dict(u, module=r["module"]) for r in results for u in r["undecided"]]
    vacuous = [f"{r['module']}::{f}" for r in results for f in r.get("vacuous", [])]
    ob, dis = sum(r["obligations"] for r in results), sum(r["discharged"] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "obligations": ob, "discharged": dis,
            "checker_cmd": "verus <module>.rs --edition 2024 --rlimit 40 (Verus 0.2026.09.13, Z3 back end), on text extracted from /repo by /verif/extract in this run",
            "trusted_base": sorted({t for r in results for t in r["trusted"]}) + ["Verus, its vstd library and Z3", "rustc", "the extractor /verif/extract and the rewrites listed per function"],
            "functions_under_contract": [f"{f['path']}::{f['fn']}" for r in results for f in r["functions"] if not f["assumed"]],
            "rewrites": {f["fn"]: f["rewrites"] for r in results for f in r["functions"] if f["rewrites"]},
            "modules": [{k: r.get(k) for k in ("module", "obligations", "discharged", "smt_ms", "wall_s", "vacuity_probes", "vacuous", "assumption_sites")} for r in results],
            "solver_s": round(sum(r["smt_ms"] for r in results) / 1000, 3),
            "undecided": undecided,
            "failed_obligations": [{"fn": f["fn"], "obligations": f["obligations"]} for f in proof_fails],
            "evaluations": sum(s["evaluations"] for s in suites), "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in suites),
            "rule": "BOUNDED part (never counted as proved): " + "; ".join(f"{s['suite']}: {s['rule']}" for s in suites),
            "samples": [x for s in suites for x in s["samples"]][:8] or ["-"],
            "bounded_suites": [{k: s[k] for k in ("suite", "evaluations", "distinct_nontrivial", "exhaustive", "completed", "wall_s")} for s in suites],
        },
        "assumptions": cfg.get("assumptions", []), "wall_s": 0, "violations": 0,
    }
    if cfg["level"] == "other":
        ev["coverage"]["explanation"] = cfg["level_note"]
    code = 0
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in undecided:
        print(f"NOTE: {u['module']}::{u['fn']} is not decided by the proof ({u['why']}); only the bounded checks cover it in this run")
    if vacuous:
        print("NOTE: vacuous contract: " + ", ".join(vacuous))
    replay = os.path.join(HERE, "replay", prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    if fails:
        json.dump({"property": prop, "kind": "failing input", "how": "build /verif/harness and run: tdharness case SUITE SEED INDEX", "cases": fails[:10],
                   "failed_obligations": proof_fails}, open(replay, "w"), indent=1, ensure_ascii=False)
        for f in fails[:3]:
            print(f"  {f['suite']} #{f['index']}: {f['message'][:300]}")
            for l in f["steps"][:12]:
                print("      " + l[:200])
        print(f"VIOLATION property={prop} replay={replay}")
        ev["violations"], code = len(fails), 1
    elif proof_fails:
        json.dump({"property": prop, "kind": "failed obligation", "failed_obligations": proof_fails}, open(replay, "w"), indent=1, ensure_ascii=False)
        for f in proof_fails:
            print(f"  {f['module']}::{f['fn']}: {'; '.join(f['obligations'])}")
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        ev["violations"], code = len(proof_fails), 1
    else:
        print(f"{prop}: {dis}/{ob} obligations discharged for {sum(len(r['functions']) for r in results)} functions; {ev['coverage']['evaluations']} bounded cases, none failing")
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    return code


sys.exit(main())
