#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree.

1. Every contract of the property is verified by cppvc against the current source (units/*.cpp).
2. The replay harness runs the same real code natively: it searches a failing input for an obligation that
   failed, and, shortly, checks the verifier's own library models against the real library."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import registry
REPO = os.environ.get("CPPVC_REPO", "/repo")
BUILD = os.environ.get("CPPVC_BUILD", os.path.join(ROOT, "build"))
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
CXX = "g++"
LLVM = "/usr/lib/llvm-20"
FLAGS = ("-O1 -std=c++17 -fno-rtti -fno-strict-aliasing -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w "
         "-I%s/include" % LLVM).split() + ["-I%s/%s" % (REPO, d) for d in
        ("oclint-core/include", "oclint-metrics/include", "oclint-rules/include", "oclint-rules", "oclint-driver/include", "oclint-reporters/include")] + ["-I" + REPO, "-I" + ROOT]
LINK = ["/usr/lib/x86_64-linux-gnu/libclang-cpp.so.20.1", "-L%s/lib" % LLVM, "-lLLVM-20", "-fuse-ld=lld", "-Wl,-rpath,%s/lib" % LLVM, "-ldl", "-lpthread"]
T0 = time.time()


def left(total): return total - (time.time() - T0)


# ------------------------------------------------------------------------------ harness
class HarnessBroken(Exception): pass


def tree_hash():
    h = hashlib.sha256()
    for d in ("oclint-core", "oclint-metrics", "oclint-rules", "oclint-driver", "oclint-reporters"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)):
            if p.endswith((".h", ".hpp", ".def", ".in")) and os.path.isfile(p):
                h.update(p.encode()); h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(ROOT, "harness", "*.h")) + glob.glob(os.path.join(ROOT, "specs", "*.h"))): h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_one(src, key, extra):
    h = hashlib.sha256((key + src + " ".join(extra)).encode() + open(src, "rb").read()).hexdigest()[:24]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(o):
        t = o + ".%d" % os.getpid()
        r = subprocess.run([CXX] + FLAGS + list(extra) + ["-c", src, "-o", t], capture_output=True, text=True)
        if r.returncode: raise HarnessBroken("%s does not compile:\n%s" % (src, r.stderr[-2000:]))
        os.replace(t, o)
    return o


def build_harness(name):
    spec = registry.HARNESS[name]
    hsrc, pats = spec[0], spec[1]
    extra = spec[2] if len(spec) > 2 else []
    srcs = [os.path.join(ROOT, hsrc)]
    flags = {}
    for p in pats:
        p, _, fl = p.partition("::")
        m = sorted(glob.glob(os.path.join(REPO, p)))
        if not m: raise HarnessBroken("no source matches " + p)
        srcs += m
        for x in m: flags[x] = [fl] if fl else []
    key = tree_hash()
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda s: compile_one(s, key, list(extra) + flags.get(s, [])), srcs))
    hk = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "h_%s_%s" % (name, hk))
    if not os.path.exists(out):
        t = out + ".%d" % os.getpid()
        r = subprocess.run([CXX] + objs + ["-o", t] + LINK, capture_output=True, text=True)
        if r.returncode: raise HarnessBroken("link of harness %s failed:\n%s" % (name, r.stderr[-2000:]))
        os.replace(t, out)
    return out, [os.path.relpath(s, REPO) for s in srcs[1:]]


def run_harness(exe, prop, seed, seconds, out, arg=""):
    """one process per core slice of the seeds; first failure wins"""
    scratch = os.path.join(BUILD, "scratch.%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    n = 4
    ps = []
    for k in range(n):
        o = out + ".%d" % k
        if os.path.exists(o): os.unlink(o)
        d = os.path.join(scratch, str(k)); os.makedirs(d, exist_ok=True)
        ps.append((o, subprocess.Popen([exe, "--property", prop, "--seed", str(seed * 1000 + k), "--seconds", str(seconds), "--out", o, "--arg", arg],
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=d)))
    res = {"cases": 0, "nontrivial": 0, "samples": [], "failed": None, "broken": None}
    for o, p in ps:
        try: so, se = p.communicate(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill(); so, se = p.communicate()
            res["broken"] = "harness did not end"
            continue
        m = re.search(r"^OK cases=(\d+) nontrivial=(\d+)", so, re.M)
        if m:
            res["cases"] += int(m.group(1)); res["nontrivial"] += int(m.group(2))
            res["samples"] += re.findall(r"^SAMPLE (.*)$", so, re.M)
        elif os.path.exists(o):
            if res["failed"] is None: res["failed"] = open(o, errors="replace").read()
        elif p.returncode in (-11, -6, -8, -4, 139, 134, 136):
            # the real code crashed on a generated input; the harness wrote the input it was working on
            cur = os.path.join(scratch, str(ps.index((o, p))), "current")
            inp = open(cur, errors="replace").read() if os.path.exists(cur) else ""
            if res["failed"] is None: res["failed"] = "property: %s\nwhat fails: the code under test ended with signal %d\nseed: %d\ninput:\n%s\n%s" % (prop, p.returncode, seed * 1000 + ps.index((o, p)), inp, se[-1500:])
        else: res["broken"] = "harness ended with %s: %s %s" % (p.returncode, so[-500:], se[-1000:])
        if os.path.exists(o): os.unlink(o)
    shutil.rmtree(scratch, ignore_errors=True)
    return res


# ------------------------------------------------------------------------------ proof
def run_unit(unit, targets, timeout, k):
    j = os.path.join(BUILD, "rep.%d.%d.json" % (os.getpid(), k))
    p = subprocess.Popen([PY, os.path.join(ROOT, "cppvc", "vc.py"), os.path.join(ROOT, unit), "--json", j, "--targets", ",".join(targets)],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return {"unit": unit, "status": "timeout", "error": "no answer within %d s" % timeout, "results": [], "functions": [], "missing": []}
    try:
        with open(j) as f: return json.load(f)
    except Exception:
        return {"unit": unit, "status": "internal", "error": (so + se)[-2000:], "results": [], "functions": [], "missing": []}
    finally:
        if os.path.exists(j): os.unlink(j)


def ensure_exporter():
    out = os.path.join(BUILD, "exporter")
    src = os.path.join(ROOT, "cppvc", "exporter.cpp")
    stamp = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".sha") and open(out + ".sha").read() == stamp: return
    subprocess.run(["bash", os.path.join(ROOT, "cppvc", "build_exporter.sh"), out], check=True)
    os.utime(out)
    with open(out + ".sha", "w") as f: f.write(stamp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=840)
    a = ap.parse_args()
    prop = a.property
    P = registry.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    replay = os.path.join(ROOT, "replays", "%s.txt" % prop)
    if os.path.exists(replay): os.unlink(replay)
    if P.get("units"): ensure_exporter()
    known = load_known(prop)

    hres, hsrcs, herr, exe = None, [], None, [None]
    def do_harness():
        nonlocal hres, hsrcs, herr
        try:
            exe[0], hsrcs = build_harness(P["harness"])
            hres = run_harness(exe[0], prop, seed, 60 if thorough else P.get("seconds", 4), os.path.join(BUILD, "fail.%s.%d" % (prop, os.getpid())), P.get("arg", ""))
        except HarnessBroken as e: herr = str(e)
        except Exception as e: herr = repr(e)
    th = threading.Thread(target=do_harness)
    if P.get("harness"): th.start()

    reps = []
    for k, (unit, targets) in enumerate(P.get("units", [])):
        reps.append(run_unit(unit, targets, max(60, left(a.budget) - 150), k))
    if P.get("harness"): th.join()

    obligations, discharged, failed, unsupported = 0, 0, [], []
    fns, inlined, trusted, assumed, backends = [], set(), set(), set(), {"z3": 0, "cvc5": 0}
    solver_s, invs, trivial = 0.0, [], 0
    for r in reps:
        if r["status"] != "ok": unsupported.append("%s: %s: %s" % (r["unit"], r["status"], r.get("error", "")[-800:]))
        for m in r["missing"]: unsupported.append("%s: no function %s" % (r["unit"], m))
        for f in r["functions"]:
            fns.append("%s (%s:%s)" % (f["fn"], (f.get("file") or "").replace(REPO + "/", ""), f.get("line")))
            inlined |= set(f["inlined"]); trusted |= set(f["trusted"]); assumed |= set(f["assumptions"])
            solver_s += f["solver"]; trivial += f["trivial"]
            backends["z3"] += f["queries"]; backends["cvc5"] += f["cvc5"]
            for l in f["loops"]: invs.append("%s line %s: %s" % (f["fn"], l[0], "; ".join(l[1][:12])))
            obligations += f["trivial"]; discharged += f["trivial"]
        for o in r["results"]:
            if o["verdict"] == "unsupported":
                unsupported.append("%s: %s" % (o["fn"], o["info"][-600:])); continue
            obligations += 1
            if o["verdict"] == "proved": discharged += 1
            elif o["verdict"].startswith("unknown") and ("timeout" in o["verdict"]): unsupported.append("%s: %s: %s" % (o["fn"], o["obligation"], o["verdict"]))
            else: failed.append(o)
    # a failed obligation: look for an input that shows it
    if failed and hres and not hres["failed"] and exe[0]:
        sec = max(5, min(60, left(a.budget) - 30))
        more = run_harness(exe[0], prop, seed + 77, sec, os.path.join(BUILD, "fail.%s.%d" % (prop, os.getpid())), P.get("arg", ""))
        hres["cases"] += more["cases"]; hres["nontrivial"] += more["nontrivial"]
        hres["failed"] = more["failed"]

    violations = 0
    line = None
    obl_text = "\n".join("failed obligation: %s: %s: %s (line %s)\n  verifier: %s" % (o["fn"], o["obligation"], o["verdict"], o["line"], o["info"] or "no model") for o in failed)
    if hres and hres["failed"]:
        violations = 1
        with open(replay, "w") as f:
            f.write(hres["failed"] + "\n" + obl_text + "\n")
            f.write("\nreplay: bash %s/replay.sh %s   (rebuilds the harness and searches from the same seed)\n" % (ROOT, prop))
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        violations = len(failed)
        with open(replay, "w") as f: f.write("property: %s\nno failing input found\n%s\n" % (prop, obl_text))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)

    full = not unsupported and not failed and obligations > 0
    assumptions = list(COMMON) + sorted("assumed: " + x for x in assumed) + sorted("external function taken as a pure function of its arguments: " + x.replace("pure: ", "") for x in trusted) + P.get("assumptions", [])
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "proof" if P.get("level", "proof") == "proof" else "exploration",
          "coverage": {"obligations": obligations, "discharged": discharged,
                       "checker_cmd": "%s cppvc/vc.py <unit> --targets <contracts> for " % os.path.basename(PY) + "; ".join("%s [%s]" % (u, ",".join(t) or "all") for u, t in P.get("units", [])),
                       "trusted_base": ["cppvc (exporter.cpp over clang 20's AST, engine.py, loops.py, models.py: semantics of the C++ subset and of std containers, strings, algorithms)", "z3 4.8/5 (python z3-solver)", "cvc5 1.1.2"],
                       "functions_under_contract": fns, "inlined_functions": sorted(inlined), "discharged_by_rewriting": trivial,
                       "solver_queries": backends, "solver_seconds": round(solver_s, 2), "loop_invariants": invs[:60],
                       "not_extracted_this_run": unsupported, "all_obligations_discharged": full,
                       "bounded_part": "replay harness %s: generated inputs against the compiled real code, bounded, never counted as proved" % P.get("harness"),
                       "evaluations": hres["cases"] if hres else 0, "distinct_nontrivial": hres["nontrivial"] if hres else 0,
                       "rule": P.get("rule", "random inputs biased to collisions and boundaries; non-trivial: more than one element/step/item"),
                       "samples": (hres["samples"][:4] if hres else []), "harness_sources": hsrcs, "harness_problem": herr or (hres and hres["broken"])},
          "assumptions": assumptions, "violations": violations, "wall_s": round(time.time() - T0, 2)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d obligations, %d discharged, %d functions under contract, %d harness cases, %.0f s" % (prop, obligations, discharged, len(fns), ev["coverage"]["evaluations"], time.time() - T0))
    for u in unsupported: print("  not decided by proof: " + u[:300])
    if herr or (hres and hres["broken"]): print("  harness: " + str(herr or hres["broken"])[:1000])
    for o in failed: print("  failed obligation %s: %s: %s" % (o["fn"], o["obligation"], o["verdict"]))
    if line:
        print(line)
        sys.exit(1)
    if discharged == 0 and not ev["coverage"]["evaluations"]:
        print("nothing was explored")
        sys.exit(2)
    sys.exit(0)


def load_known(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append(m.group(2).strip())
    return out


COMMON = [
    "partial correctness: termination is not proved",
    "integers are mathematical; container sizes are below 2^31",
    "a char is one byte; std::string is a sequence of bytes",
    "objects reached through distinct owners do not overlap; no concurrent access",
    "the front end (clang 20) gives the meaning of the source; contracts are compiled in the same translation unit as the real code",
]

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
