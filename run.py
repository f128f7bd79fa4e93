#!/usr/bin/env python3
"""Run one check:  run.py C05 [--tier quick|thorough] [--replay FILE]

Builds the harness against /repo's current working tree, explores the whole
bounded space, confirms every failure by replaying it, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held; 1: violation; 2: the check itself could not run."""
import json, os, re, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FLATCV_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=268435456:"
                    "malloc_fill_byte=203:exitcode=77:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
                    "detect_stack_use_after_return=0:max_allocation_size_mb=6000:allocator_release_to_os_interval_ms=-1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=78",
}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout

def compile_all(jobs):
    """jobs: list of argv; run in parallel"""
    def one(cmd):
        rc, out = sh(cmd)
        if rc != 0:
            raise BuildError(" ".join(cmd) + "\n" + out[-3000:])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))

def lib_sources():
    return sorted(f for f in glob.glob(REPO + "/src/*.c") if os.path.basename(f) != "cli.c")

def build(cid, cfg, bdir):
    os.makedirs(bdir, exist_ok=True)
    for f in glob.glob(bdir + "/*"):
        if os.path.isfile(f): os.unlink(f)
    if "build" in cfg:
        return cfg["build"](sys.modules[__name__], bdir)
    cc = cfg.get("cc", "gcc"); cxx = cfg.get("cxx", "g++")
    lflags = cfg.get("lib_flags", ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"])
    hflags = cfg.get("h_flags", ["-O2", "-g1", "-fsanitize=address"])
    jobs, objs = [], []
    for s in cfg["src"]:
        o = f"{bdir}/h_{os.path.basename(s)}.o"; objs.append(o)
        jobs.append([cxx, "-std=c++17", "-w", *hflags, f"-I{REPO}/include", f"-I{VERIF}/src", "-c", f"{VERIF}/src/{s}", "-o", o])
    for s in lib_sources():
        o = f"{bdir}/l_{os.path.basename(s)}.o"; objs.append(o)
        jobs.append([cc, "-w", *lflags, f"-I{REPO}/include", "-c", s, "-o", o])
    compile_all(jobs)
    exe = f"{bdir}/check"
    compile_all([[cxx, *cfg.get("link_flags", ["-fsanitize=address"]), *objs, "-lm", "-o", exe, *cfg.get("libs", [])]])
    return [exe]

def run_env(cfg):
    e = dict(os.environ); e.update(ASAN_ENV); e.update(cfg.get("env", {}))
    e["FLATCV_REPO"] = REPO
    return e

def replay(exe, cfg, fail, tier, scratch, with_history, timeout):
    cmd = exe + ["--tier", tier, "--suite", fail["suite"], "--idx", str(fail["idx"]), "--scratch", scratch]
    if with_history: cmd += ["--from", str(fail["from"])]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=run_env(cfg), timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return -99, (o.decode(errors="replace") if isinstance(o, bytes) else o) + f"\nno result within {timeout} s"

def load_known():
    try: return json.load(open(VERIF + "/known_findings.json"))["findings"]
    except FileNotFoundError: return []

def main():
    a = sys.argv[1:]
    cid = a.pop(0); tier = os.environ.get("VERIF_TIER", "quick"); rfile = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--replay": rfile = a.pop(0)
        else: sys.exit("bad argument " + x)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[cid]
    t0 = time.time()
    bdir = f"{VERIF}/build/{cid}"
    scratch = f"{VERIF}/build/{cid}.scratch"
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    try:
        exe = build(cid, cfg, bdir)
    except BuildError as e:
        print(f"{cid}: cannot build the harness against {REPO}:\n{e}"); return 2
    tb = time.time() - t0
    if rfile:
        f = json.load(open(rfile))
        rc, out = replay(exe, cfg, f, f["tier"], scratch, f.get("history", False), 300)
        print(out[-6000:]); return 1 if rc or "FINDING " in out else 0
    out = scratch + "/result.json"
    cmd = exe + ["--tier", tier, "--workers", str(cfg.get("workers", 8)), "--out", out, "--scratch", scratch,
                 "--deadline", str(700 if tier == "quick" else 6 * 3600)]
    r = subprocess.run(cmd, env=run_env(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-3000:]); print(f"{cid}: harness ended with {r.returncode}"); return 2
    res = json.load(open(out))
    known = {k["key"]: k for k in load_known() if k["property"] == cid}
    violations, unconfirmed, known_hit = [], [], {}
    rdir = f"{VERIF}/evidence/replay"; os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(f"{rdir}/{cid}-*.json"): os.unlink(old)
    extra = []
    for k in res["known"]:
        if k["key"] in known: known_hit[k["key"]] = k
        else: extra.append(k)
    for k in extra:   # a finding that is not listed is a violation
        k.update(tier=tier, history=True, how=f"python3 {VERIF}/run.py {cid} --replay <this file>")
        path = f"{rdir}/{cid}-{len(violations)+1}.json"
        json.dump(k, open(path, "w"), indent=1); violations.append((path, k))
    for f in res["fails"]:
        if len(violations) >= 3 or (violations and time.time() - t0 > 400): break
        confirmed = False
        for hist in (False, True):
            tries = 1 if not hist else 2
            for _ in range(tries):
                rc, o = replay(exe, cfg, f, tier, scratch, hist, 75 if f["kind"] == 2 else 150)
                if rc != 0 and (rc != -99 or f["kind"] == 2): confirmed = True; break
            if confirmed: break
        f["tier"] = tier; f["history"] = hist; f["replay_output"] = o[-3000:]
        f["how"] = f"python3 {VERIF}/run.py {cid} --replay <this file>"
        if confirmed:
            path = f"{rdir}/{cid}-{len(violations)+1}.json"
            json.dump(f, open(path, "w"), indent=1)
            violations.append((path, f))
        else:
            unconfirmed.append(f)
    for s in res["suites"]:   # summary
        print(f"  {s['name']}: {s['done']}/{s['cases']} cases, {s['cpu']} cpu s  ({s['what']})")
    samples = [f"[{s['name']}] {x}" for s in res["suites"] for x in s["samples"][1:2]][:12]
    level = cfg.get("level", "model_checking")
    cov = dict(samples=samples, exhaustive=(not res["capped"] and not violations and res["jobs"] == res["jobs_done"]),
               bounds=cfg["bounds"], suites=[dict(name=s["name"], space=s["what"], cases=s["cases"], executed=s["done"]) for s in res["suites"]])
    if level == "model_checking":
        cov.update(states=res["distinct"], transitions=res["calls"], traces_validated_against_impl=res["compared"], cases=res["evaluations"])
    else:
        cov.update(evaluations=res["evaluations"], distinct_nontrivial=res["distinct"], rule=cfg["rule"], calls=res["calls"], compared=res["compared"])
    if res["capped"]: cov["capped"] = "time cap hit; see 'executed' per suite"
    if unconfirmed: cov["unconfirmed"] = [dict(suite=f["suite"], idx=f["idx"], msg=f["msg"][:300]) for f in unconfirmed]
    ev = dict(property=cid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=cfg.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    json.dump(ev, open(f"{VERIF}/evidence/{cid}.json", "w"), indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    for f in unconfirmed:
        print(f"UNCONFIRMED (not reproduced on replay): {f['suite']} {f['idx']} {f['msg'][:300]}")
    for key, k in known.items():
        if key in known_hit:
            print(f"KNOWN-FINDING: property={cid} {k['what']}")
    for path, f in violations:
        print(f"  {f['suite']}[{f['idx']}] {f['case']}: {f['msg'][:600]}")
        print(f"VIOLATION property={cid} replay={path}")
    print(f"{cid} {tier}: {res['evaluations']} cases, {res['calls']} calls, {res['distinct']} distinct states, build {tb:.1f} s, total {time.time()-t0:.1f} s")
    return 1 if violations else 0

if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
