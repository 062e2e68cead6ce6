#!/usr/bin/env python3
"""Symbolic-execution checks of matklad/fall.

  check.py <ID> [--tier quick|thorough]     decide one property (exit 0 / 1; 2 = the check itself failed)
  check.py --setup                          build everything once
  check.py --replay FILE                    replay a reported counterexample against the real build

Every run rebuilds the harnesses and the repository's crates from /repo's working tree to LLVM bitcode, links
them with the standard library's bitcode and lets /verif/engine explore every path; see DESIGN.md.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
LLVM = "/usr/lib/llvm-18/bin/"
SYSROOT = "/root/.rustup/toolchains/1.52.1-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/lib"
TARGET = "x86_64-unknown-linux-gnu"
sys.path.insert(0, V)
import props

class CheckError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def rust_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "rewrite", "rewrite_test_data", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN="1.70.0", RUSTC="/opt/vp/bin/rustc", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    return e

def sh(cmd, env=None, cwd=None, timeout=800, what=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode != 0:
        raise CheckError("%s failed (%d):\n%s\n%s" % (what or cmd[0], r.returncode, r.stdout.decode(errors="replace")[-1500:], r.stderr.decode(errors="replace")[-3500:]))
    return r

# ------------------------------------------------------------------------------------------- building
def build_engine():
    sh(["make", "-s", "-j4", "-C", os.path.join(V, "engine"), "B=" + B + "/engine"], what="engine build")

def harness_copy():
    """Cargo works on a copy: it may rewrite Cargo.lock, and the committed files stay as they are."""
    d = os.path.join(B, "harness")
    for root, _, files in os.walk(os.path.join(V, "harness")):
        if "/target" in root:
            continue
        for f in files:
            s = os.path.join(root, f); t = os.path.join(d, os.path.relpath(s, os.path.join(V, "harness")))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            if not os.path.exists(t) or (f != "Cargo.lock" and open(s, "rb").read() != open(t, "rb").read()):
                shutil.copyfile(s, t)
    return d

def cargo_bc(features):
    d = harness_copy()
    e = rust_env()
    e["CARGO_TARGET_DIR"] = B + "/bc"
    e["RUSTFLAGS"] = "-C linker-plugin-lto -C no-vectorize-loops -C no-vectorize-slp -C target-cpu=x86-64" + props.CFG
    r = sh(["cargo", "build", "--release", "--offline", "--lib", "--target", TARGET, "--message-format=json-render-diagnostics", "--features", ",".join(features)], env=e, cwd=d, what="bitcode build of /repo")
    libs = []
    for l in r.stdout.decode().splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") == "compiler-artifact" and any(k in ("lib", "rlib") for k in m["target"]["kind"]):
            libs += [f for f in m["filenames"] if f.endswith(".rlib") and "/" + TARGET + "/" in f]
    return libs

def cargo_native(features):
    d = harness_copy()
    e = rust_env()
    e["CARGO_TARGET_DIR"] = B + "/native"
    e["RUSTFLAGS"] = props.CFG.strip()
    sh(["cargo", "build", "--offline", "--bin", "replay", "--features", ",".join(features + ["native"])], env=e, cwd=d, what="native build of /repo")
    return B + "/native/debug/replay"

def std_bc():
    out = B + "/std"
    if os.path.exists(out + "/ok"):
        return sorted(glob.glob(out + "/*.bc"))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for lib in ("std", "core", "alloc", "hashbrown", "compiler_builtins"):
        rl = glob.glob("%s/lib%s-*.rlib" % (SYSROOT, lib))[0]
        x = out + "/x_" + lib; os.makedirs(x)
        sh(["ar", "x", rl], cwd=x)
        for o in sorted(glob.glob(x + "/*.o")):
            bc = "%s/%s_%s.bc" % (out, lib, hashlib.md5(os.path.basename(o).encode()).hexdigest()[:8])
            subprocess.run([LLVM + "llvm-objcopy", "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(bc) and os.path.getsize(bc) == 0: os.remove(bc)
        shutil.rmtree(x)
    open(out + "/ok", "w").close()
    return sorted(glob.glob(out + "/*.bc"))

def fhash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def prepare(features, entries):
    """-> (prepared module, replay binary, timings)"""
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    harness_copy()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fe, fs, fb = ex.submit(build_engine), ex.submit(std_bc), ex.submit(cargo_bc, features)
        fn = ex.submit(cargo_native, features)
        libs = fb.result(); fs.result(); fe.result()
        t1 = time.time()
        key = fhash(libs + [B + "/engine/vhe"]) + "-" + hashlib.md5(",".join(entries).encode()).hexdigest()[:8]
        pd = B + "/prep"; os.makedirs(pd, exist_ok=True)
        prep = "%s/%s.bc" % (pd, key)
        if not os.path.exists(prep):
            od = B + "/obj-" + str(os.getpid()); shutil.rmtree(od, ignore_errors=True)
            objs = []
            for i, l in enumerate(libs):
                x = "%s/%d" % (od, i); os.makedirs(x); sh(["ar", "x", l], cwd=x)
                objs += sorted(glob.glob(x + "/*.rcgu.o"))
            allbc = od + "/all.bc"
            sh([LLVM + "llvm-link"] + objs + std_bc() + ["-o", allbc], what="llvm-link")
            sh([B + "/engine/vhe", "prep", allbc, prep + ".tmp", ",".join(entries)], what="vhe prep")
            os.rename(prep + ".tmp", prep)
            shutil.rmtree(od)
            for old in sorted(glob.glob(pd + "/*.bc"), key=os.path.getmtime)[:-30]:
                os.remove(old)
        replay = fn.result()
    return prep, replay, {"build_s": round(t1 - t0, 1), "link_prep_s": round(time.time() - t1, 1)}

# ------------------------------------------------------------------------------------------- replay
def replay_one(binary, entry, params, inputs, timeout=20):
    line = "%s|%s|%s\n" % (entry, ",".join(map(str, params)), ",".join(map(str, inputs)))
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 6000000; exec " + binary], input=line.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang"
    out = r.stdout.decode(errors="replace").strip()
    return out if out else "died %d %s" % (r.returncode, r.stderr.decode(errors="replace").strip()[-200:])

def replay_many(binary, jobs):
    if not jobs: return []
    inp = "".join("%s|%s|%s\n" % (e, ",".join(map(str, p)), ",".join(map(str, i))) for e, p, i in jobs)
    r = subprocess.run([binary], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
    return r.stdout.decode(errors="replace").splitlines()

def reproduces(kind, msg, res):
    if kind == "assert": return res == "assert " + msg.split()[-1]
    if kind == "limit" or kind == "stack": return res == "hang" or res.startswith("died")
    return res.startswith("panic") or res.startswith("died") or res == "hang"

# ------------------------------------------------------------------------------------------- demangling
def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m: return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k: break
        l = int(k.group()); s = s[k.end():]; out.append(s[:l]); s = s[l:]
    t = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"), ("$BP$", "*"), ("..", "::"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u27$", "'"), ("$u5b$", "["), ("$u5d$", "]")):
        t = t.replace(a, b)
    return t
REPO_CRATES = ("fall_", "lang_", "indxr")

# ------------------------------------------------------------------------------------------- one check
def run_config(prep, run, tier, outdir, tlimit):
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    cmd = [B + "/engine/vhe", "run", prep, run["entry"], "-o", outdir, "-t", str(tlimit), "-V", "12", "-j", str(min(8, os.cpu_count() or 4))]
    if run.get("params"): cmd += ["-p", ",".join(map(str, run["params"]))]
    cmd += run.get("opts", [])
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tlimit + 120)
    w = time.time() - t
    if not os.path.exists(outdir + "/run.json"):
        raise CheckError("engine gave no result for %s %s: %s" % (run["entry"], run.get("params"), r.stderr.decode(errors="replace")[-1500:]))
    res = json.load(open(outdir + "/run.json"))
    st, funcs, um = {}, set(), {}
    for f in glob.glob(outdir + "/stats-*.json"):
        d = json.load(open(f)); funcs.update(d.pop("funcs"))
        for k, n in d.pop("unsup_msgs").items(): um[k] = um.get(k, 0) + n
        for k, v in d.items(): st[k] = st.get(k, 0) + v
    viols = [json.load(open(f)) for f in sorted(glob.glob(outdir + "/viol-*.json"), key=lambda f: int(re.search(r"viol-(\d+)", f).group(1)))]
    samples = []
    for f in sorted(glob.glob(outdir + "/samples-*.jsonl")):
        samples += [json.loads(l) for l in open(f)]
    return dict(run=res, stats=st, funcs=funcs, unsup=um, viols=viols, samples=samples, wall=w, stderr=r.stderr.decode(errors="replace")[-800:])

def known_findings():
    p = os.path.join(V, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if not k.get("fixed")] if os.path.exists(p) else []

def check(pid, tier, only=None):
    t0 = time.time()
    prop = props.PROPS[pid]
    runs = [r for r in prop["runs"] if r.get("tier", "both") in ("both", tier)]
    if only: runs = [r for r in runs if r["entry"] in only]
    entries = sorted(set(r["entry"] for r in prop["runs"]))
    os.makedirs(B, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    lock = open(B + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    prep, replay, tm = prepare(prop["features"], entries)
    rdir = "%s/evidence/replay/%s" % (V, pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    total, funcs, perrun, errors, found, knownhit = {}, set(), [], [], [], []
    validated, samplesout, nviol = 0, [], 0
    budget = 780 if tier == "quick" else 1e9
    for i, run in enumerate(runs):
        left = max(20, budget - (time.time() - t0))
        tl = min(left, run.get("time", 300 if tier == "quick" else 7200))
        R = run_config(prep, run, tier, "%s/out/%s-%d" % (B, pid, i), int(tl))
        name = "%s(%s)" % (run["entry"], ",".join(map(str, run.get("params", []))))
        for k, v in R["stats"].items(): total[k] = total.get(k, 0) + v
        funcs |= R["funcs"]
        # violations: replay each natively
        unrep = False
        for v in R["viols"]:
            inp = [int(x) for x in v["inputs"]]
            res = replay_one(replay, v["entry"], v["params"], inp)
            ok = reproduces(v["kind"], v["msg"], res)
            v.update(native=res, property=pid, inputs=inp, reproduced=ok, features=prop["features"])
            if not ok:
                unrep = True
                errors.append("%s: counterexample does not reproduce natively: %s %s inputs=%s native=%s" % (name, v["kind"], v["msg"], inp, res)); continue
            k = next((k for k in known_findings() if k["property"] == pid and k["entry"] == v["entry"] and k["kind"] == v["kind"] and re.fullmatch(k["match"], v["msg"])), None)
            if k:
                knownhit.append(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"])); continue
            p = "%s/%d.json" % (rdir, nviol); nviol += 1
            json.dump(v, open(p, "w"), indent=1)
            found.append((p, v))
            log("  %s: %s %s inputs=%s native: %s" % (name, v["kind"], v["msg"], inp, res))
        # sampled paths: the engine's run and the native run must agree
        jobs = [(run["entry"], run.get("params", []), [int(x) for x in s["inputs"]]) for s in R["samples"]]
        for s, o in zip(R["samples"], replay_many(replay, jobs)):
            exp = "expected-panic" if s["panic"] else "ok " + " ".join(s["obs"])
            if o.strip() != exp.strip():
                errors.append("%s: engine and native run disagree on %s: engine '%s' native '%s'" % (name, s["inputs"], exp, o))
            else:
                validated += 1
                if len(samplesout) < 12 and (not samplesout or samplesout[-1]["harness"] != name or len(samplesout) < 4):
                    samplesout.append({"harness": name, "inputs": s["inputs"], "observed": s["obs"][:8]})
        inc = []
        if R["run"]["crashed"]: inc.append("engine worker failed: " + R["stderr"])
        if R["run"]["dropped"] and not R["run"]["stopped"]: inc.append("%d states unexplored at the time limit" % R["run"]["dropped"])
        if R["unsup"]: inc.append("unsupported: %s" % list(R["unsup"].items())[:3])
        if R["stats"].get("z3_unknown"): inc.append("z3 answered unknown %d times" % R["stats"]["z3_unknown"])
        if not found:
            missing = [x for x in run.get("reach", []) if x not in R["run"]["reach"]]
            if missing: inc.append("reachability witnesses %s not reached (vacuous)" % missing)
            if not R["samples"] and not R["viols"]: inc.append("no path completed")
        for x in inc: errors.append("%s: %s" % (name, x))
        perrun.append({"harness": name, "what": run.get("what", ""), "paths": R["run"]["paths"], "wall_s": round(R["wall"], 2), "witnesses_reached": R["run"]["reach"], "violations": len(R["viols"]), "complete": not inc})
        log("  %s: %d paths, %.1fs%s" % (name, R["run"]["paths"], R["wall"], "" if not inc else "  INCOMPLETE " + "; ".join(inc)))
        shutil.rmtree("%s/out/%s-%d" % (B, pid, i), ignore_errors=True)
        if len(found) >= 4 or (found and tier == "quick"): break
        if time.time() - t0 > budget and i + 1 < len(runs):
            errors.append("time budget used up before %s" % runs[i + 1]["entry"]); break
    rf = sorted(set(demangle(f) for f in funcs))
    repo = sorted(set(f for f in rf if any(c in f.split("::")[0] or ("<" + c) in f for c in REPO_CRATES)))
    T = lambda k: int(total.get(k, 0))
    cov = {"states": T("paths") + T("infeasible"), "transitions": T("insts"), "traces_validated_against_impl": validated, "samples": samplesout,
           "exhaustive": not errors and not found,
           "explanation": "states: symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions: LLVM instructions executed symbolically; traces_validated_against_impl: path witnesses replayed on the natively compiled crate with equal observations",
           "bounds": prop["bounds"], "outside": prop.get("outside", ""),
           "functions_encoded": {"total": len(rf), "repository": repo[:400], "repository_count": len(repo)},
           "queries": {"z3_sat": T("z3_sat"), "z3_unsat": T("z3_unsat"), "z3_unknown": T("z3_unknown"), "z3_cache_hits": T("q_cache"), "finite_domain_decisions": T("q_dom"), "finite_domain_unsat_confirmed_by_z3": T("q_domcert"), "decided_by_current_model": T("q_model"), "path_conditions_certified_by_z3": T("certs")},
           "solver_time_s": round(total.get("z3_time", 0), 2), "assertions_checked": T("asserts"), "assertions_symbolic": T("asserts_sym"), "forks": T("forks"),
           "harnesses": perrun, "build": tm, "known_findings_seen": sorted(set(knownhit)), "errors": errors}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": props.COMMON_ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(found)}
    tmp = "%s/evidence/%s.json.tmp" % (V, pid)
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, tmp[:-4])
    for p, v in found:
        print("VIOLATION property=%s replay=%s" % (pid, p))
    for e in errors: log("ERROR", e)
    log("%s %s: %s in %.0fs (build %s)" % (pid, tier, "VIOLATED" if found else "ERROR" if errors else "held", time.time() - t0, tm))
    return 1 if found else 2 if errors else 0

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if tier not in ("quick", "thorough"): tier = "quick"
    try:
        if a and a[0] == "--setup":
            os.makedirs(B, exist_ok=True); build_engine(); std_bc(); f = sorted(set(x for p in props.PROPS.values() for x in p["features"]))
            cargo_bc(f); return 0
        if a and a[0] == "--replay":
            v = json.load(open(a[1])); b = cargo_native(v["features"]); r = replay_one(b, v["entry"], v["params"], v["inputs"])
            print(r); return 1 if reproduces(v["kind"], v["msg"], r) else 0
        return check(a[0], tier, a[1:] or None)
    except (CheckError, subprocess.TimeoutExpired) as e:
        log("CHECK ERROR:", e); return 2
if __name__ == "__main__":
    sys.exit(main())
