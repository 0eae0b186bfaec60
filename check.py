#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]

Decides one property on /repo's current working tree.

1. The functions the property depends on are extracted mechanically from /repo
   (tools/vextract.py), put under the contracts of proofs/<unit>.rs, and given to
   Verus, which must accept every obligation.
2. In parallel the replay driver (harness/<crate>) is built against the same
   sources and looks for a concrete input on which the compiled code departs from
   the contract: it supplies the failing input when an obligation fails, and it is
   the bounded stand-in for what the contracts take on trust.

exit 0: held.  exit 1: VIOLATION line.  exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import vextract
from config import PROPS, ASSUME_COMMON

REPO = os.environ.get("VERIF_REPO", "/repo")
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout,
                           errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, d(e.stdout), d(e.stderr) + f"\ntimed out after {timeout} s"


# ---------------------------------------------------------------- verifier

LEMMA_HINTS = ("spec", "proof")


def verus(text, path, timeout=400):
    open(path, "w").write(text)
    cmd = [VERUS, path, "--rlimit", "60", "--multiple-errors", "30", "--output-json", "--time-expanded", "--num-threads", "4"]
    if "// edition 2024" in text:
        cmd.insert(2, "--edition=2024")
    t = time.time()
    rc, out, err = sh(cmd, timeout, cwd=os.path.dirname(path))
    k = out.find("{")
    js = None
    if k >= 0:
        try:
            js = json.JSONDecoder().raw_decode(out[k:])[0]
        except ValueError:
            js = None
    return dict(rc=rc, js=js, err=err, wall=time.time() - t, cmd=" ".join(cmd[:-2]).replace(path, os.path.basename(path)))


def errors_of(err):
    """[(message, [lines])] of every error block in the verifier's output"""
    res = []
    for blk in re.split(r"\n(?=error|warning|note: )", "\n" + err):
        blk = blk.strip("\n")
        if not blk.startswith("error"):
            continue
        msg = blk.split("\n")[0]
        if msg.startswith("error: aborting"):
            continue
        lines = [int(x) for x in re.findall(r"-->\s+\S+?:(\d+):\d+", blk)]
        # the other marked lines of the block
        lines += [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", blk, re.M)]
        res.append((msg, lines, blk))
    return res


def run_unit(unit, work):
    """Extract, verify, and check that no contract is vacuous."""
    tpl = os.path.join(HERE, "proofs", unit + ".rs")
    r = dict(unit=unit, status="", why="", failed=[], meta=None, verified=0, errors=0, smt_ms=0, funcs={}, out="")
    try:
        text, meta = vextract.extract(tpl, REPO)
        canary, cmeta = vextract.extract(tpl, REPO, canary=True)
    except vextract.Lost as e:
        r.update(status="undecided", why=f"lost anchor: {e}")
        return r
    except Exception as e:  # the scanner met something it does not know
        r.update(status="undecided", why=f"extraction: {type(e).__name__}: {e}")
        return r
    r["meta"] = meta
    with cf.ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(verus, text, os.path.join(work, unit + ".rs"))
        f2 = ex.submit(verus, canary, os.path.join(work, unit + "_canary.rs"))
        v, c = f1.result(), f2.result()
    r["cmd"] = v["cmd"]
    r["out"] = v["err"][-20000:]
    js = v["js"]
    if not js or "verification-results" not in js:
        r.update(status="undecided", why="the verifier gave no result: " + v["err"][-400:])
        return r
    vr = js["verification-results"]
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    try:
        for m in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                r["funcs"][f["function"]] = dict(ms=f.get("time", 0), rlimit=f.get("rlimit", 0), ok=f.get("success", True))
        r["smt_ms"] = js["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        pass
    if vr.get("encountered-vir-error") or (not vr.get("success") and not vr.get("errors")):
        es = errors_of(v["err"])
        r.update(status="undecided", why="outside the verifier's dialect: " + "; ".join(m for m, _, _ in es)[:600])
        return r
    if vr.get("success") and vr.get("errors", 0) == 0:
        # vacuity: an assert(false) planted at the start of each contracted body must fail
        cl = set()
        for m, lines, blk in errors_of(c["err"]):
            for a, b, lab in cmeta["spans"]:
                if any(a <= x <= b for x in lines) and "assertion" in m:
                    cl.add(lab)
        vac = [x for x in meta["contracts"] if x in meta["canaries"] and x not in cl]
        if r["verified"] == 0 or vac:
            r.update(status="undecided", why=f"vacuous: {vac or 'no obligations'}")
            return r
        r["canaries"] = len(cl)
        r["status"] = "proved"
        return r
    # failed obligations: which function do they belong to
    for m, lines, blk in errors_of(v["err"]):
        if "rlimit" in m.lower() or "resource limit" in m.lower() or "resource limit" in blk.lower():
            r["failed"].append(dict(label=None, kind="rlimit", msg=m, text=blk))
            continue
        lab = None
        first = lines[0] if lines else 0
        for a, b, l in meta["spans"]:
            if a <= first <= b:
                lab = l
        if lab is None:
            for a, b, l in meta["spans"]:
                if any(a <= x <= b for x in lines):
                    lab = l
        r["failed"].append(dict(label=lab, kind="obligation", msg=m, text=blk))
    r["status"] = "failed"
    return r


# ---------------------------------------------------------------- replay driver

def build_driver(crate):
    d = os.path.join(HERE, "harness", crate)
    tgt = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.94",
               RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0")
    if not subprocess.run(["rustup", "run", "1.94", "rustc", "-V"], capture_output=True).returncode == 0:
        env.pop("RUSTUP_TOOLCHAIN")
    rc, out, err = sh(["cargo", "build", "--offline", "--locked", "-q"], 700, cwd=d, env=env)
    return rc == 0, os.path.join(tgt, "debug", crate), err


def listed_findings(pid):
    """keys of the findings recorded (not repaired) for a property; a `fixed:` line suppresses nothing"""
    p = os.path.join(HERE, "known", "findings.txt")
    if not os.path.exists(p):
        return set()
    return {m.group(1) for l in open(p) for m in [re.match(rf"known: property={pid} key=(\S+)", l)] if m}


def run_driver(exe, pid, seconds, seed, deep, timeout=None):
    cmd = [exe, pid, "--seconds", str(seconds), "--seed", str(seed)] + (["--deep"] if deep else [])
    scratch = tempfile.mkdtemp(prefix="vdrv")
    try:
        rc, out, err = sh(cmd, timeout or seconds * 3 + 120, cwd=scratch, env=dict(os.environ, TMPDIR=scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = cex = None
    known = []
    for l in out.splitlines():
        if l.startswith("COVER "):
            cov = json.loads(l[6:])
        elif l.startswith("CEX "):
            cex = json.loads(l[4:])
        elif l.startswith("KNOWN "):
            k = json.loads(l[6:])
            if k["key"] in listed_findings(pid):
                known.append(k)
            elif cex is None:
                cex = dict(k, stage="known findings")
    crash = None
    if cex is None and rc not in (0,):
        crash = f"driver ended with status {rc}: {(out + err)[-800:]}"
    return dict(cov=cov, cex=cex, crash=crash, cmd=cmd, rc=rc, known=known)


# ---------------------------------------------------------------- main

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    deep = tier == "thorough"
    seconds = (P.get("seconds", 6) if not deep else 240)
    work = tempfile.mkdtemp(prefix=f"v{pid}_")
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ulist = P.get("units", {})
    try:
        with cf.ThreadPoolExecutor(6) as ex:
            fu = {u: ex.submit(run_unit, u, work) for u in ulist}
            fb = ex.submit(build_driver, P["driver"]) if P.get("driver") else None
            drv, built, exe, berr = None, False, None, ""
            if fb:
                built, exe, berr = fb.result()
                if built:
                    drv = run_driver(exe, pid, seconds, seed, deep)
            units = {u: f.result() for u, f in fu.items()}

        # the property's own functions
        failed, undecided, proved = [], [], []
        for u, fns in ulist.items():
            r = units[u]
            labels = None if fns == "*" else set(fns)
            known = set((r["meta"] or {}).get("contracts", []))
            if labels and r["meta"] and not labels <= known:
                raise SystemExit(f"config: {labels - known} not under contract in {u}")
            if r["status"] == "proved":
                proved += sorted(known if labels is None else labels)
            elif r["status"] == "undecided":
                undecided.append(f"{u}: {r['why']}")
            else:
                mine = [f for f in r["failed"] if f["kind"] == "obligation" and f["label"] and (labels is None or f["label"] in labels)]
                other = [f for f in r["failed"] if f["kind"] != "obligation" or not f["label"]]
                # a closure that nothing is known of: what it does is no part of what was asked
                new = (r["meta"] or {}).get("bare_closures", {})
                if mine and all(f["label"] in new for f in mine):
                    undecided.append(f"{u}: {', '.join(sorted({f['label'] for f in mine}))}: a closure without a contract")
                    continue
                failed += mine
                if not mine and other:
                    undecided.append(f"{u}: " + "; ".join(f["msg"] for f in other)[:400])
                elif not mine:
                    proved += sorted(labels or [])

        if (failed or undecided) and built and drv and not drv["cex"] and not drv["crash"] and P.get("driver"):
            # an obligation is open: look harder for a concrete input
            drv2 = run_driver(exe, pid, 40 if not deep else 120, seed + 1000, True)
            if drv2["cex"]:
                drv = drv2

        def write_replay(kind, body):
            h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(rdir, f"{pid}-{kind}-{h}.json")
            json.dump(body, open(p, "w"), indent=1)
            return p

        viol = None
        note = []
        if drv and drv["cex"]:
            c = drv["cex"]
            body = dict(property=pid, kind="concrete input", input=c["input"], what=c["what"], stage=c["stage"],
                        replay=f"cd {HERE} && ./replay.sh <this file>", driver=P["driver"],
                        args=[pid, "--seed", str(c["seed"]), "--only", str(c["case"])] + (["--deep"] if c["deep"] else []),
                        failed_obligations=[dict(function=f["label"], obligation=f["msg"]) for f in failed])
            viol = f"VIOLATION property={pid} replay={write_replay('input', body)}"
        elif failed:
            body = dict(property=pid, kind="failed obligation", failed_obligations=[
                dict(function=f["label"], obligation=f["msg"], verifier_output=f["text"]) for f in failed],
                searched=(drv or {}).get("cov"))
            viol = f"VIOLATION property={pid} replay={write_replay('obligation', body)} no-failing-input-found"
        if fb and not built:
            note.append("the replay driver does not build against the current tree: " + berr[-1500:])
        if drv and drv["crash"]:
            note.append(drv["crash"])

        no_answer = (undecided or not ulist) and not viol and not (drv and drv["cov"])
        write_evidence(pid, tier, seed, P, units, proved, failed, undecided, drv, note, viol, time.time() - t0)
        for k in (drv or {}).get("known", []):
            print(f"KNOWN-FINDING: property={pid} {k['key']}: {k['input']}: {k['what']}")
        for n in note:
            print("note:", n[:600])
        for u in undecided:
            print("undecided:", u[:600])
        for u, r in units.items():
            print(f"{u}: {r['status']}, {r['verified']} obligations groups discharged, {r['errors']} failed")
        if drv and drv["cov"]:
            print(f"replay driver: {drv['cov']['cases']} cases on the compiled code")
        if viol:
            for f in failed:
                print(f"failed obligation in {f['label']}: {f['msg']}")
            if drv and drv["cex"]:
                print(f"input: {drv['cex']['input'][:400]}\n{drv['cex']['what'][:600]}")
            print(viol)
            return 1
        if no_answer:
            print("no answer")
            return 2
        print(f"{pid}: held")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(pid, tier, seed, P, units, proved, failed, undecided, drv, note, viol, wall):
    cov = {}
    obl = sum(u["verified"] + u["errors"] for u in units.values())
    dis = sum(u["verified"] for u in units.values())
    trusted, rw, dropped, srcs = [], [], [], []
    for u in units.values():
        m = u["meta"] or {}
        trusted += m.get("trusted", [])
        rw += m.get("rewrites", [])
        dropped += m.get("dropped", [])
        srcs += m.get("sources", [])
    cases = (drv or {}).get("cov") or {}
    level = P["level"]
    if level == "proof" and (undecided or not units):
        level = "other"
    cov.update(
        obligations=obl, discharged=dis,
        checker_cmd="; ".join(u.get("cmd", "") for u in units.values()) or "none",
        trusted_base=sorted(set(trusted)) or ["none"],
        functions_under_contract=sorted(set(x for u in units.values() for x in (u["meta"] or {}).get("contracts", []))),
        functions_of_this_property=proved,
        extracted_without_contract=sorted(set(x for u in units.values() for x in (u["meta"] or {}).get("extracted_no_contract", []))),
        contracts_proved_in_other_units=sorted(set(x for u in units.values() for x in (u["meta"] or {}).get("assumed_proved", []))),
        back_end="Verus (Z3)",
        solver_ms=sum(u["smt_ms"] for u in units.values()),
        per_function_solver={f: v for u in units.values() for f, v in u["funcs"].items()},
        vacuity_canaries_failed_as_required=sum(u.get("canaries", 0) for u in units.values()),
        assume_or_admit={k: sum((u["meta"] or {}).get("cheats", {}).get(k, 0) for u in units.values()) for k in ("assume", "admit")},
        extraction_rewrites=sorted(set(rw)), extraction_dropped=sorted(set(dropped)), sources=sorted(set(srcs)),
        undecided=undecided, failed=[dict(function=f["label"], obligation=f["msg"]) for f in failed],
        bounded_replay=dict(label="bounded, not counted as proved", cases=cases.get("cases", 0), stages=cases.get("stages", {}),
                            notes=cases.get("notes", []), seconds=cases.get("seconds", 0)),
        explanation=P.get("explain", "") + (" UNDECIDED on this tree; only the bounded replay answered." if undecided else ""),
        notes=note,
    )
    if level != "proof":
        cov["evaluations"] = cases.get("cases", 0)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=P.get("assumptions", []) + (ASSUME_COMMON if units else []), wall_s=round(wall, 2), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
