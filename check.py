#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough
Decides one property: extracts the functions under contract from /repo/src, has Verus discharge their
obligations, and reports. See DESIGN.md for what is trusted and what the extraction drops."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
REPO = "/repo"
W = os.path.join(V, "target", "run-" + PROP)
ERR = []
ALT = {}

def say(*a): print(*a, flush=True)
def run(cmd, timeout, cwd=V, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"
def cargo(d, tgt, release):
    return run(["cargo", "+stable", "build", "--offline", "-q", "--target-dir", tgt] + (["--release"] if release else []), 600, cwd=d)

VERIF_MSG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift", "decreases not satisfied", "assertion not satisfied", "loop invariant", "unable to show", "failed to satisfy", "cannot prove", "could not prove", "loop must", "index out of bounds", "termination", "possible ")
def classify(m):
    t = m["message"].lower()
    if "rlimit" in t or "resource limit" in t or "timed out" in t or "timeout" in t: return "limit"
    if m.get("code") or "must have a decreases" in t: return "front"
    if any(x in t for x in VERIF_MSG): return "failed"
    return "front"

def extract(out, ext, env=None):
    return run([os.path.join(V, "target/vx/release/vx"), REPO + "/src", os.path.join(V, "specs"), out + ".rs", out + ".json"] + sorted(ext), 120, env=env)
def verus(out, args, timeout=700):
    cmd = ["verus", os.path.basename(out) + ".rs", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "7"] + args
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(out))
    msgs = []
    for l in e.splitlines():
        if l.startswith("{"):
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("level") == "error" and not m["message"].startswith("aborting"): msgs.append(m)
    try: j = json.loads(o)
    except ValueError: j = None
    return rc, j, msgs, e, " ".join(cmd)

def fn_at(fns, line):
    for f in fns:
        if f["start"] <= line <= f["end"]: return f
    return None
def spans(m):
    s = [x for x in m.get("spans", [])]
    return sorted(s, key=lambda x: not x["is_primary"])

def prove():
    """extraction and proof; front-end rejections put the function concerned outside and are tried again"""
    out = os.path.join(W, "crate")
    ext, rejected, env = set(), {}, {}
    res = dict(ok=False, why="", fns=[], failed=[], limits=[], lost={}, cmd="", smt_ms=0, units={}, json=None)
    for rnd in range(6):
        rc, o, e = extract(out, ext, env=env)
        if rc != 0: res["why"] = "extraction: " + e.strip()[:2000]; return res
        mp = json.load(open(out + ".json"))
        rc, j, msgs, raw, cmd = verus(out, ["--multiple-errors", "8", "--rlimit", "40" if TIER == "quick" else "120"])
        res["cmd"] = cmd
        fns = [f for f in mp["functions"] if f["start"] > 0]
        front = [m for m in msgs if classify(m) == "front"]
        new = set()
        for m in front:
            for s in spans(m):
                f = fn_at(fns, s["line_start"])
                if f and f["status"] not in ("ghost",) and f["key"] not in ext:
                    new.add(f["key"]); rejected.setdefault(f["key"], m["message"]); break
        if front and new: ext |= new; continue
        # the theorem about histories does not fit the signatures any more: the functions can do without it
        if front and not env and any((fn_at(fns, s["line_start"]) or {}).get("key") == "raw:history" for m in front for s in spans(m)): env = {"VX_NO_CLIENTS": "1"}; continue
        if front or j is None or "smt" not in j.get("times-ms", {}):
            res["why"] = "front end: " + ("; ".join(m["rendered"] for m in front or msgs)[:3000] or raw[:3000])
            return res
        break
    else:
        res["why"] = "front end: too many functions rejected: " + ", ".join(sorted(ext)); return res
    marks = mp["marks"]
    shapes = json.load(open(os.path.join(V, "specs", "shapes.json")))
    # functions whose loops or calls are no longer those the written invariants and lemmas were attached to
    loose = {f["key"]: f["loose"] or "its loops are not those the written invariants are about" for f in mp["functions"] if f["status"] == "extracted" and (f["loose"] or f["shape"] != shapes.get(f["key"], {}).get("loops", []))}
    def labels(line):
        for a, b, l in marks:
            if a <= line <= b and l: return l
        return None
    for m in msgs:
        kind = classify(m)
        sp = spans(m)
        # the function the obligation belongs to: where the failing code is
        owner = None
        lines = [s["line_start"] for s in sp]
        if "precondition" in m["message"]:
            for s in sp:
                f = fn_at(fns, s["line_start"])
                if f and s["is_primary"]: owner = f
        if owner is None:
            for s in sp:
                f = fn_at(fns, s["line_start"])
                if f: owner = f; break
        labs = None
        for s in sp:
            if fn_at(fns, s["line_start"]) is owner: labs = labs or labels(s["line_start"])
        props = labs if labs and "*" not in labs else (owner["props"] if owner else [])
        rec = dict(message=m["message"], fn=owner["key"] if owner else "?", props=props, text=m["rendered"], clause=[t["text"] for s in sp for t in s["text"]][:4])
        if kind == "limit": res["limits"].append(rec)
        elif rec["fn"] in loose: rec["message"] += " (" + loose[rec["fn"]] + ")"; res["limits"].append(rec)
        else: res["failed"].append(rec)
    lost = {f["key"]: f["reason"] for f in mp["functions"] if f["status"] in ("failed", "missing")}
    lost.update(rejected)
    res["lost"] = {k: v for k, v in lost.items()}
    res["errors"] = mp["errors"]
    res["fns"] = mp["functions"]
    res["without"] = mp["without_contract"]
    res["dropped"] = mp["dropped"]
    for md in j["times-ms"]["smt"]["smt-run-module-times"]:
        for f in md["function-breakdown"]:
            u = res["units"].setdefault(f["function"], dict(ok=True, us=0, rlimit=0, mode=f.get("mode:")))
            u["ok"] &= f["success"]; u["us"] += f["time-micros"]; u["rlimit"] += f["rlimit"]
    res["smt_ms"] = j["times-ms"]["smt"]["smt-run"]
    res["total"] = j["verification-results"]
    res["history"] = not env
    res["ok"] = True
    return res

def reach():
    """vacuity guard: `assert(false)` at the start of each function under contract must be refused"""
    out = os.path.join(W, "reach")
    rc, o, e = extract(out, set(), env={"VX_REACH": "1", "VX_NO_CLIENTS": "1"})
    if rc != 0: return None
    mp = json.load(open(out + ".json"))
    fns = [f for f in mp["functions"] if f["start"] > 0 and f["status"] == "extracted"]
    rc, j, msgs, raw, cmd = verus(out, ["--multiple-errors", "1", "--rlimit", "20"], timeout=500)
    if j is None or any(classify(m) == "front" for m in msgs): return None
    src = open(out + ".rs").read().split("\n")
    refused = set()
    for m in msgs:
        for s in spans(m):
            f = fn_at(fns, s["line_start"])
            if f: refused.add(f["key"])
    vac = [f["key"] for f in fns if f["key"] not in refused and any("vx_reach" in src[i] for i in range(f["start"] - 1, min(f["end"], len(src))))]
    return dict(checked=len(fns), vacuous=vac)

def search(secs, maxh=None):
    """the bounded stand-in and witness search: histories run on the real crate against the model of the property"""
    b = os.path.join(V, "target/replay/debug/replay")
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    f = os.path.join(V, "replays", f"{PROP}-{SEED}.txt")
    if os.path.exists(f): os.remove(f)
    rc, o, e = run([b, "search", PROP, str(SEED), str(secs), f] + ([str(maxh)] if maxh else []), secs + 150, env=ALT)
    m = re.search(r"histories=(\d+) operations=(\d+)", o)
    st = dict(histories=int(m.group(1)) if m else 0, operations=int(m.group(2)) if m else 0)
    if rc == 1 and os.path.exists(f): return f, o.strip().splitlines()[-1], st
    return None, o + e, st

def known():
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == PROP: out.append((m.group(2), m.group(3)))
    return out

def main():
    os.makedirs(W, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        a = ex.submit(cargo, os.path.join(V, "tools/vx"), os.path.join(V, "target/vx"), True)
        b = ex.submit(cargo, os.path.join(V, "replay"), os.path.join(V, "target/replay"), False)
        c = ex.submit(cargo, os.path.join(V, "replay"), os.path.join(V, "target/replay-opt"), True)
        ra, rb, rc = a.result(), b.result(), c.result()
    if ra[0] != 0: say("cannot build the extractor:", ra[2][-2000:]); return 2
    have_replay = rb[0] == 0
    if rc[0] == 0: ALT["REPLAY_ALT"] = os.path.join(V, "target/replay-opt/release/replay")
    if not have_replay: ERR.append("replay build: " + rb[2][-500:])
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(prove)
        fr = ex.submit(reach)
        try: p = fp.result()
        except Exception as x: p = dict(ok=False, why="internal: " + repr(x), fns=[], failed=[], limits=[], lost={}, cmd="", smt_ms=0, units={})
        try: rch = fr.result()
        except Exception: rch = None
    mine = [f for f in p["fns"] if PROP in f["props"]]
    assumed = [f["key"] for f in mine if f["status"] == "assumed"]
    failed = [x for x in p["failed"] if PROP in x["props"]]
    other = [x for x in p["failed"] if PROP not in x["props"]]
    lost = {k: v for k, v in p["lost"].items() if any(f["key"] == k and (PROP in f["props"]) for f in p["fns"])}
    limits = [x for x in p["limits"] if PROP in x["props"]]
    vac = [k for k in (rch or {}).get("vacuous", []) if any(f["key"] == k for f in mine)]
    hit = None; st = None; searched = 0
    need = (not p["ok"]) or p["failed"] or p["lost"] or p["limits"] or TIER == "thorough"
    if need and have_replay:
        searched = (240 if failed else 120) if TIER == "quick" else 300
        searched = int(min(searched, max(30, 780 - (time.time() - T0))))
        hit, note, st = search(searched)
    # ---- evidence
    def unit(f, u):
        t = f["key"].split("::")[-1]
        return u.split("::")[-1] == t and (f["module"] == "" or ("::" + f["module"] + "::") in u) and (len(f["key"].split("::")) < 2 or f["key"].split("::")[-2] in u)
    mods = {f["module"] for f in mine if f["module"]}
    if PROP in HISTORY: mods.add("history")
    units = {u: x for u, x in p["units"].items() if any(unit(f, u) for f in mine) or any(("::" + m + "::") in u and (m == "history" or x["mode"] in ("proof", "spec")) for m in mods)}
    nob, ndis = len(units), sum(1 for x in units.values() if x["ok"])
    bad = {x["fn"] for x in failed}
    decl = sorted(f["key"] for f in mine if f["status"] == "trait contract")
    mine = [f for f in mine if f["status"] != "trait contract"]
    src = open(os.path.join(W, "crate.rs")).read().split("\n") if os.path.exists(os.path.join(W, "crate.rs")) else []
    clauses = {"requires": 0, "ensures": 0, "invariant": 0, "decreases": 0}
    for f in mine:
        kind = None
        for l in src[max(f["start"] - 1, 0):f["end"]]:
            t = l.strip()
            if t in ("requires", "ensures", "invariant", "invariant_except_break", "decreases"): kind = {"invariant_except_break": "invariant"}.get(t, t); continue
            if t.startswith("{") or t.endswith("{"): kind = None
            if kind and t.endswith(","): clauses[kind] += 1
    prel = "".join(open(os.path.join(V, "specs", n)).read() for n in sorted(os.listdir(os.path.join(V, "specs"))) if n == "prelude.rs" or n.endswith(".vspec"))
    ext = re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:proof |tracked )?(?:fn|struct) (\w+)", prel)
    axs = re.findall(r"axiom fn (\w+)", prel) + ["axiom_sz_ct"]
    proved = [f["key"] for f in mine if f["status"] == "extracted" and f["key"] not in bad and f["key"] not in lost and f["key"] not in {x["fn"] for x in limits}]
    trusted = ["verus 0.2026.09.13 and Z3", "vx extraction (/verif/tools/vx): see DESIGN.md for what it drops", "specs/prelude.rs: contracts of std allocation, raw pointer, Layout, TypeId, slice search/sort and ManuallyDrop operations (external_body: " + ", ".join(sorted(set(ext))) + "; axioms: " + ", ".join(axs) + ")"] + ["assumed contract: " + k for k in assumed]
    level = "proof" if p["ok"] and not lost and not limits else "other"
    cov = dict(obligations=nob, discharged=ndis, checker_cmd=p["cmd"] or "verus", trusted_base=trusted,
               functions_under_contract=sorted(f["key"] for f in mine), functions_proved=len(proved), back_end="Z3 via Verus",
               solver_ms=sum(x["us"] for x in units.values()) // 1000, solver_ms_whole_crate=p["smt_ms"],
               trait_contracts_every_implementation_is_checked_against=decl, contract_clauses_of_these_functions=clauses, outside_verifier=lost, undecided=[dict(fn=x["fn"], what=x["message"]) for x in limits],
               vacuity_guard=rch, failed=[dict(fn=x["fn"], what=x["message"], clause=x["clause"]) for x in failed],
               failed_elsewhere=[x["fn"] for x in other], repo_functions_without_contract=p.get("without", []), extraction_drops=p.get("dropped", []))
    if PROP in HISTORY: cov["theorem_about_histories"] = "specs/95_history.vspec: verified in this run" if p.get("history") else "left out: it does not fit the present signatures"
    if not p["ok"]: cov["verifier_unavailable"] = p["why"][:1500]
    if st is not None: cov["bounded_search"] = dict(st, seconds=searched, bound="random histories on the real crate, a bounded stand-in and never counted as proved")
    if level == "other": cov["explanation"] = "part of the code could not be brought before the verifier in its present form; for it a bounded search of the real crate stood in"
    kf = []
    viol = 0
    rc = 0
    if hit:
        txt = open(hit).read()
        for pat, what in known():
            if re.search(pat, txt): kf.append(what); hit = None; break
    for pat, what in known():
        if what not in kf: kf.append(what)
    for w in kf: say(f"KNOWN-FINDING: property={PROP} {w}")
    if hit:
        if failed:
            with open(hit, "a") as fh:
                for x in failed: fh.write("\n# failed obligation in " + x["fn"] + "\n" + "\n".join("# " + l for l in x["text"].splitlines()) + "\n")
        say(f"{PROP}: {note}")
        for x in failed: say(f"  failed obligation in {x['fn']}: {x['message']}: {' | '.join(x['clause'][:2])}")
        say(f"VIOLATION property={PROP} replay={hit}"); viol, rc = 1, 1
    elif failed:
        f = os.path.join(V, "replays", f"{PROP}-{SEED}-obligations.txt")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            fh.write(f"property {PROP}: obligations the verifier no longer discharges (no failing input found)\n")
            for x in failed: fh.write(f"\nfunction {x['fn']}: {x['message']}\n{x['text']}\n")
        for x in failed: say(f"  failed obligation in {x['fn']}: {x['message']}: {' | '.join(x['clause'][:2])}")
        say(f"VIOLATION property={PROP} replay={f} no-failing-input-found"); viol, rc = 1, 1
    elif vac:
        say("contracts with unsatisfiable preconditions:", vac); rc = 2
    elif p["ok"] and nob == 0 and not lost:
        say("no obligations for", PROP); rc = 2
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = dict(property=PROP, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=ASSUME + ERR, wall_s=round(time.time() - T0, 1), violations=viol)
    json.dump(ev, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)
    say(f"{PROP}: {len(proved)}/{len(mine)} functions proved, {ndis}/{nob} units discharged, {len(lost)} outside, {len(failed)} failed here, {len(other)} elsewhere, {time.time()-T0:.0f}s" + ("" if p["ok"] else " [verifier unavailable: bounded search only]"))
    return rc

# the properties the theorem about histories (specs/95_history.vspec) puts together
HISTORY = ("C01", "C02", "C03", "C04", "C07", "C08")
ASSUME = ["machine integers are checked for overflow; sizes are bounded: at most 2^30 entities, at most 2^32-2 reuses of one id",
          "the contracts of std given in specs/prelude.rs; allocation never fails",
          "callers in user code meet the preconditions of the store's methods (handles come from the same store)"]
sys.exit(main())
