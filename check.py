#!/usr/bin/env python3
"""Driver of the monitoring framework.

  check.py <PROPERTY> [--tier quick|thorough]   build from /repo, run the workloads, judge, write evidence
  check.py --setup                              build everything once
  check.py --replay <file>                      re-run the case recorded in a replay file
"""
import sys, os, re, json, time, subprocess, fnmatch, hashlib, argparse, shutil, collections
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "out"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, HERE)
from plan import PLAN, VARIANTS, EXES, NOTES   # noqa: E402

def incdirs():
    d = ["", "BinaryFiles/", "Julia/", "Manifolds/", "Matlab/", "Matlab/ForCpp/", "Matlab/ForMatlab/", "Others/", "Others/SparseBLAS/", "Others/fftw/",
         "Others/wavelet/", "Problems/", "Solvers/", "cwrapper/", "cwrapper/blas/", "cwrapper/lapack/", "test/"]
    mk = open(os.path.join(REPO, "Makefile")).read()
    d2 = re.findall(r"INCDIRS\s*\+?=\s*-I\$\(ROOTPATH\)/(\S*)", mk)
    return [os.path.join(REPO, x) for x in (d2 or d)]

def lib_sources():
    mk = open(os.path.join(REPO, "Makefile")).read()
    srcs = []
    for line in mk.splitlines():
        if line.startswith("CPPS"):
            srcs += re.findall(r"\$\(ROOTPATH\)/(\S+\.cpp)", line)
    return sorted({s for s in srcs if not s.startswith("test/")})

def build(variant, exes):
    v = VARIANTS[variant]
    bd = os.path.join(BUILD, variant)
    if v.get("kind") == "fill":
        for b, _ in v["fills"]: build(b, exes)
        return bd
    os.makedirs(bd, exist_ok=True)
    inc = " ".join("-I" + d for d in incdirs()) + " -I" + os.path.join(HERE, "harness")
    L = ["ninja_required_version = 1.3",
         "rule cc", f"  command = {v['cxx']} {v['libflags']} -w -std=c++11 -DROPTLIB_WITH_FFTW {inc} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ch", f"  command = {v['cxx']} {v['hflags']} -w -std=c++17 -DROPTLIB_WITH_FFTW {inc} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar crs $out $in",
         "rule ld", f"  command = {v['cxx']} {v['ldflags']} $in -llapack -lblas -lfftw3 -lm -ldl -lpthread -o $out"]
    lo = []
    for s in lib_sources():
        o = f"{bd}/lib/{s[:-4]}.o"
        L.append(f"build {o}: cc {os.path.join(REPO, s)}")
        lo.append(o)
    lib = f"{bd}/libropt.a"
    L.append(f"build {lib}: ar {' '.join(lo)}")
    hobjs = set()
    tg = []
    for e in exes:
        os_ = []
        for h in ["vh"] + EXES[e]:
            o = f"{bd}/h/{h}.o"
            if h not in hobjs:
                L.append(f"build {o}: ch {HERE}/harness/{h}.cpp")
                hobjs.add(h)
            os_.append(o)
        L.append(f"build {bd}/{e}: ld {' '.join(os_)} {lib}")
        tg.append(f"{bd}/{e}")
    nf = os.path.join(bd, f"build.{'_'.join(sorted(exes))}.ninja")
    with open(nf, "w") as f:
        f.write(f"builddir = {bd}\n" + "\n".join(L) + "\n")
    p = subprocess.run(["ninja", "-f", nf, "-j", str(NPROC)] + tg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/")
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        print("BUILD FAILED variant=%s" % variant)
        sys.exit(2)
    return bd

def run_suite(bd, v, exe, suite, count, seed, tier, timeout, shards, extra_env=None, trace=None):
    env = dict(os.environ)
    env.update(v.get("env", {}))
    env.update(extra_env or {})
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    env["MALLOC_ARENA_MAX"] = "1"
    tmp = os.path.join(OUT, "tmp.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    def one(i):
        outp = os.path.join(tmp, f"{exe}.{suite}.{os.path.basename(bd)}.{i}.{hashlib.md5(repr(extra_env).encode()).hexdigest()[:6]}")
        cmd = [f"{bd}/{exe}", "--suite", suite, "--seed", str(seed), "--count", str(count), "--start", str(i), "--step", str(shards), "--out", outp, "--timeout", str(timeout)]
        if tier == "thorough": cmd.append("--thorough")
        if trace: cmd += ["--trace", trace]
        p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        try: lines = open(outp, errors="replace").read().split("\n")
        except FileNotFoundError: lines = []
        if os.path.exists(outp): os.unlink(outp)
        if p.returncode: lines.append(f"-1\tRUNNER\t{p.returncode}\t{p.stderr[-500:]}")
        return lines
    return one

def load_known():
    k = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                k.append(d)
    return k

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.setup:
        for var in VARIANTS:
            need = sorted({s[0] for p in PLAN.values() for s in p["suites"] if var in s[3].split("+")})
            if need: build(var, need)
        print("setup done"); return 0
    if a.replay:
        r = json.load(open(a.replay))
        bd = build(r["variant"], [r["exe"]])
        env = dict(os.environ); env.update(VARIANTS[r["variant"]].get("env", {}))
        cmd = [f"{bd}/{r['exe']}", "--suite", r["suite"], "--seed", str(r["seed"]), "--only", str(r["case"])] + (["--thorough"] if r["tier"] == "thorough" else [])
        print(" ".join(cmd)); return subprocess.run(cmd, env=env).returncode
    pid, tier = a.prop, a.tier
    plan = PLAN[pid]
    t0 = time.time()
    obs = collections.Counter(); sigs = set(); samples = []; vios = []; ncase = 0; runner_err = []; perS = {}
    worst = {}; slow = []
    jobs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for (exe, suite, (nq, nt), variants, *rest) in plan["suites"]:
            opts = rest[0] if rest else {}
            n = max(1, int((nq if tier == "quick" else nt) * a.scale))
            for var in variants.split("+"):
                v = VARIANTS[var]
                bd = build(var, sorted({s[0] for s in plan["suites"] if var in s[3].split("+")}))
                if v.get("kind") == "fill":
                    jobs.append((exe, suite, var, None, [ex.submit(fill_case, bd, v, exe, suite, n, seed, tier, opts, i) for i in range(NPROC)]))
                    continue
                shards = min(n, NPROC)
                one = run_suite(bd, v, exe, suite, n, seed, tier, opts.get("timeout", 60), shards)
                jobs.append((exe, suite, var, n, [ex.submit(one, i) for i in range(shards)]))
        for exe, suite, var, n, fs in jobs:
            for f in fs:
                for line in f.result():
                    t = line.split("\t")
                    if len(t) < 2: continue
                    if t[1] == "OBS": obs[t[2]] += int(t[3]); perS.setdefault(suite, 0); perS[suite] += int(t[3])
                    elif t[1] == "SIG": sigs.add(suite + ":" + t[2])
                    elif t[1] == "SAMPLE":
                        if len(samples) < 400: samples.append(f"{suite}#{t[0]} {t[2]}")
                    elif t[1] == "VIO": vios.append(dict(exe=exe, suite=suite, variant=var, case=int(t[0]), check=t[2], config=t[3], detail=t[4] if len(t) > 4 else ""))
                    elif t[1] == "CRASH": vios.append(dict(exe=exe, suite=suite, variant=var, case=int(t[0]), check="crash:" + t[2], config=t[3], detail=t[4] if len(t) > 4 else ""))
                    elif t[1] == "CASE":
                        ncase += 1; slow.append((float(t[2]), suite, t[0], var))
                    elif t[1] == "WORST":
                        worst[t[2]] = max(worst.get(t[2], 0), float(t[3]))
                    elif t[1] == "RUNNER": runner_err.append(f"{suite}/{var}: {t[2:]}")
    shutil.rmtree(os.path.join(OUT, "tmp.%d" % os.getpid()), ignore_errors=True)
    mine = plan.get("checks")   # only these check names are this property's (others belong to sibling properties)
    if mine is not None:
        vios = [w for w in vios if any(fnmatch.fnmatchcase(w["check"], m) for m in mine)]
    skip = plan.get("skip")
    if skip: vios = [w for w in vios if not any(fnmatch.fnmatchcase(w["check"], m) for m in skip)]
    known = [k for k in load_known() if k.get("property") == pid and k.get("status", "open") == "open"]
    hitk = {}; new = []
    for w in vios:
        w["key"] = w["check"] + "|" + w["config"]
        m = next((k for k in known if k["key"] == w["key"] or fnmatch.fnmatchcase(w["key"], k["key"])), None)
        if m: hitk.setdefault(m["key"], m)
        else: new.append(w)
    need = plan.get("observe", [])
    missing = [o for o in need if not any(c > 0 and fnmatch.fnmatchcase(k, o) for k, c in obs.items())]
    for a_, b_, mx, least in plan.get("ratio", []):   # aggregated oracle: observations of kind a_ must stay a small share
        na, nb = obs.get(a_, 0), obs.get(b_, 0)
        if na + nb >= least and na > mx * (na + nb):
            q = plan["suites"][0]
            new.append(dict(exe=q[0], suite=q[1], variant=q[3].split("+")[0], case=0, check=pid + ".rate", config=a_, key=f"{pid}.rate|{a_}", detail=f"{na} of {na + nb} observations (limit {100 * mx:.0f} %)"))
    wall = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    if len(samples) > 6: samples = samples[:: max(1, len(samples) // 6)][:6]
    ev = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "exploration"),
              coverage=dict(evaluations=ncase, distinct_nontrivial=len(sigs), rule=plan["rule"], samples=samples,
                            observations=dict(sorted(obs.items())), suites={s: c for s, c in perS.items()}, known_findings_seen=sorted(hitk)),
              assumptions=NOTES, wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(EVID, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] seed={seed}: {ncase} cases, {len(sigs)} distinct non-trivial, {sum(obs.values())} monitored events in {wall:.1f}s")
    for k, c in sorted(obs.items(), key=lambda x: -x[1])[:40 if a.v else 12]: print(f"   observed {k}: {c}")
    if a.v:
        for s in sorted(slow)[-5:]: print("   slow:", s)
        for k, q in sorted(worst.items(), key=lambda x: -x[1])[:60]: print(f"   worst {k}: {q:.3g}")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["key"] in hitk else " (not triggered by this run's cases)"))
    if runner_err:
        print("RUNNER ERROR", runner_err[:5]); return 2
    if new:
        os.makedirs(OUT, exist_ok=True)
        groups = collections.OrderedDict()
        for w in new: groups.setdefault(w["key"], []).append(w)
        rp = os.path.join(OUT, f"{pid}.replay.json")
        w = new[0]
        json.dump(dict(property=pid, seed=seed, tier=tier, **w, all=[dict(x) for x in new[:3000]]), open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        for k, ws in list(groups.items())[:60 if a.v else 25]:
            print(f"   {k} x{len(ws)} e.g. {ws[0]['suite']}#{ws[0]['case']} ({ws[0]['variant']}): {ws[0]['detail'][:300]}")
        return 1
    if missing or ncase == 0 or len(sigs) < 2:
        print("NOTHING OBSERVED:", missing, "cases", ncase, "distinct", len(sigs)); return 2
    return 0

def fill_case(bd, v, exe, suite, n, seed, tier, opts, shard):
    """R02: the same cases under two different fills of fresh heap and stack; traces must match bit for bit."""
    tmp = os.path.join(OUT, "tmp.%d" % os.getpid(), f"fill.{exe}.{suite}.{shard}")
    os.makedirs(tmp, exist_ok=True)
    lines = []; tr = []
    for k, (bin_, env_) in enumerate(v["fills"]):
        bdk = os.path.join(BUILD, bin_)
        one = run_suite(bdk, v, exe, suite, n, seed, tier, opts.get("timeout", 60), NPROC, extra_env=env_, trace=f"{tmp}/t{k}")
        ls = one(shard)
        if k == 0: lines += [l for l in ls if "\tVIO\t" not in l]
        else: lines += [l for l in ls if "\tCRASH\t" in l or "\tRUNNER\t" in l]
    for i in range(shard, n, NPROC):
        try: A = open(f"{tmp}/t0.{i}").read().split("\n")
        except FileNotFoundError: continue
        for k in range(1, len(v["fills"])):
            try: B = open(f"{tmp}/t{k}.{i}").read().split("\n")
            except FileNotFoundError: lines.append(f"{i}\tVIO\ttrace-missing\t{suite}\tfill {k}"); continue
            if A != B:
                j = next((x for x in range(min(len(A), len(B))) if A[x] != B[x]), min(len(A), len(B)))
                la = A[j] if j < len(A) else "<end>"; lb = B[j] if j < len(B) else "<end>"
                cfg = la.split("@")[-1] if "@" in la else suite
                lines.append(f"{i}\tVIO\tuninit:{la.split(' ')[0]}\t{cfg}\tfirst difference at event {j}: '{la}' vs '{lb}'")
    shutil.rmtree(tmp, ignore_errors=True)
    return lines

if __name__ == "__main__":
    sys.exit(main())
