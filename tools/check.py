#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property.

Rebuilds the translation units the harness needs from /repo's working tree with
the symbolic-execution pass, runs the harness (fork on every satisfiable branch,
obligations discharged by normal form / Z3), replays every counterexample on an
uninstrumented build, and writes evidence/ID.json.
exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import sys, os, re, json, hashlib, subprocess, time, shutil, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
P = "/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix"
Z3PY = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = os.cpu_count() or 4
DEFS = """-DBOOST_ATOMIC_DYN_LINK -DBOOST_ATOMIC_NO_LIB -DBOOST_CHRONO_DYN_LINK -DBOOST_CHRONO_NO_LIB -DBOOST_CONTAINER_DYN_LINK
 -DBOOST_CONTAINER_NO_LIB -DBOOST_DATE_TIME_DYN_LINK -DBOOST_DATE_TIME_NO_LIB -DBOOST_FILESYSTEM_DYN_LINK -DBOOST_FILESYSTEM_NO_LIB
 -DBOOST_FUSION_INVOKE_MAX_ARITY=12 -DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30
 -DBOOST_SERIALIZATION_DYN_LINK -DBOOST_SERIALIZATION_NO_LIB -DBOOST_THREAD_DYN_LINK -DBOOST_THREAD_NO_LIB
 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DHPP_CONSTRAINTS_USE_QPOASES
 -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2
 -DPINOCCHIO_URDFDOM_HEADERS_MAJOR_VERSION=3 -DPINOCCHIO_URDFDOM_HEADERS_MINOR_VERSION=0 -DPINOCCHIO_URDFDOM_HEADERS_PATCH_VERSION=0
 -DPINOCCHIO_WITH_COLLISION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DTINYXML2_IMPORT -D_FILE_OFFSET_BITS=64""".split()
INCS = ["-I" + VERIF + "/support/include", "-I" + VERIF + "/engine", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src",
        "-isystem", P + "/include", "-isystem", P + "/include/eigen3", "-isystem", P + "/include/pinocchio/deprecated",
        "-isystem", P + "/include/urdfdom", "-isystem", P + "/include/urdfdom_headers"]
BASE = ["-std=c++17", "-w", "-include", "map", "-DEIGEN_DONT_VECTORIZE"]
SYMF = ["-O1", "-g0", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-strict-aliasing"]
NATF = ["-O0", "-g1", "-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION"]
LIBS = ["-L" + P + "/lib", "-Wl,-rpath," + P + "/lib", "-lhpp-pinocchio", "-lhpp-util", "-lpinocchio_parsers", "-lpinocchio_collision", "-lpinocchio_default",
        "-lqpOASES", "-lcoal", "-lboost_serialization", "-lboost_filesystem"]
LOG = None
lock = threading.Lock()


def log(*a):
    with lock:
        print(*a, file=LOG or sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def cached(key, ext, make):
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, key + ext)
    if os.path.exists(dst):
        os.utime(dst)
        return dst
    tmp = "%s.%d.%d.tmp%s" % (dst, os.getpid(), threading.get_ident(), ext)
    r = make(tmp)
    if r.returncode != 0:
        raise RuntimeError("build failed: " + " ".join(r.args)[-300:] + "\n" + r.stdout[-6000:])
    os.rename(tmp, dst)
    return dst


def plugin():
    src = VERIF + "/engine/SymPass.cpp"
    flags = subprocess.check_output(["llvm-config-18", "--cppflags"], text=True).split()
    return cached(sha("pass", readb(src)), ".so", lambda o: run(["g++", "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-w"] + flags + [src, "-o", o]))


def z3paths():
    so = Z3PY + "/lib/libz3.so"
    if os.path.exists(so):
        return Z3PY + "/include", Z3PY + "/lib"
    return "/usr/include", "/usr/lib/x86_64-linux-gnu"


def engineObj(name):
    inc, _ = z3paths()
    srcs = b"".join(readb(VERIF + "/engine/" + f) for f in (name, "poly.hh", "sym.hh"))
    return cached(sha("eng", srcs), ".o", lambda o: run(["g++", "-O2", "-std=c++17", "-w", "-c", "-I" + inc, "-I" + VERIF + "/engine", VERIF + "/engine/" + name, "-o", o]))


def compileTU(src, mode, cfg, plug=None):
    """mode: sym / nat"""
    defs = DEFS + cfg.get("defs", [])
    pre = BASE + (["-O1"] if mode == "sym" else NATF) + defs + INCS + (["-DSYM_ENGINE"] if mode == "sym" else [])
    e = subprocess.run(["clang++-18"] + pre + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if e.returncode != 0:
        raise RuntimeError("preprocessing of %s failed:\n%s" % (src, e.stderr.decode()[-4000:]))
    env = dict(os.environ)
    stub = cfg.get("stub", "") if src.startswith(REPO + "/") else ""
    if mode == "sym":
        env["SYM_INT"] = "1" if cfg.get("ints") else "0"
        env["SYM_STUB"] = stub
        flags = BASE + SYMF + ["-fpass-plugin=" + plug]
    else:
        flags = BASE + NATF
    key = sha(mode, e.stdout, " ".join(f for f in flags), env.get("SYM_INT", ""), env.get("SYM_STUB", "") if mode == "sym" else "", "l" if src.startswith(REPO) else "")

    def make(o):
        r = run(["clang++-18"] + flags + defs + INCS + (["-DSYM_ENGINE"] if mode == "sym" else []) + ["-fPIC", "-c", src, "-o", o], env=env)
        if r.returncode == 0 and mode == "nat" and stub:
            # replays use the same stand-ins: let the harness's definition win
            syms = run(["nm", "--defined-only", "-j", o]).stdout.split()
            for s, d in zip(syms, run(["c++filt"], input="\n".join(syms)).stdout.splitlines()):
                d = d.split("(")[0]
                if any(d == n or d.endswith(" " + n) for n in stub.split(";")):
                    run(["objcopy", "--weaken-symbol=" + s, o])
        return r
    return cached(key, ".o", make)


def build(cfg, mode, exe):
    t0 = time.time()
    tus = [os.path.join(REPO, "src", t) for t in cfg["tus"]]
    missing = [t for t in tus if not os.path.exists(t)]
    tus = [t for t in tus if t not in missing]
    known = set(open(VERIF + "/support/known-sources.txt").read().split())
    allsrc = sorted(os.path.relpath(p, REPO + "/src") for p in glob.glob(REPO + "/src/**/*.cc", recursive=True))
    new = [s for s in allsrc if s not in known]
    tus += [os.path.join(REPO, "src", t) for t in new]
    harness = [VERIF + "/harness/" + h for h in cfg["harness"]]

    def attempt(tus):
        with ThreadPoolExecutor(JOBS) as ex:
            fe = [ex.submit(engineObj, n) for n in (("rt.cpp", "poly.cpp") if mode == "sym" else ("native.cpp",))]
            plug = plugin() if mode == "sym" else None
            order = sorted(harness + tus, key=lambda s: -os.path.getsize(s))
            fs = [ex.submit(compileTU, s, mode, cfg, plug) for s in order]
            objs = [f.result() for f in fs] + [f.result() for f in fe]
        inc, lib = z3paths()
        link = ["clang++-18", "-o", exe] + objs + ["-rdynamic", "-Wl,--gc-sections"] + LIBS
        if mode == "sym":
            link += [lib + "/libz3.so" if os.path.exists(lib + "/libz3.so") else "-lz3", "-Wl,-rpath," + lib, "-lgmpxx", "-lgmp"]
        return run(link)
    r = attempt(tus)
    if r.returncode != 0 or missing:
        log("link with the listed units failed, retrying with every unit of src/: " + r.stdout[-1500:])
        r = attempt([os.path.join(REPO, "src", t) for t in allsrc])
    if r.returncode != 0:
        raise RuntimeError("link failed:\n" + r.stdout[-5000:])
    return time.time() - t0


def matches(f, cex):
    return f["scenario"] == cex.get("scenario") and re.fullmatch(f["label"], cex.get("label", "")) and (not f.get("when") or all(w in cex["text"] for w in f["when"]))


def main():
    global LOG
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    cfgs = json.load(open(VERIF + "/tools/checks.json"))
    cfg = cfgs[pid]
    work = os.path.join(BUILD, "run-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    LOG = open(work + "/log.txt", "w")
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = P + "/lib:" + env.get("LD_LIBRARY_PATH", "")
    t0 = time.time()
    exe = work + "/sym"
    try:
        bt = build(cfg, "sym", exe)
    except Exception as e:
        log(str(e))
        print(str(e)[-3000:])
        print("NO-ANSWER property=%s: the harness could not be built" % pid)
        return 2
    env["SYM_OUT"] = work
    budget = cfg.get("budget", 240) if tier == "quick" else cfg.get("budget_thorough", 1500)
    env["SYM_BUDGET"] = str(budget)
    env["SYM_JOBS"] = str(JOBS)
    if tier == "thorough":
        env["SYM_THOROUGH"] = "1"
    with open(work + "/out.txt", "w") as f:
        r = subprocess.run([exe] + ([os.environ["SYM_ONLY"]] if os.environ.get("SYM_ONLY") else []), env=env, stdout=f, stderr=subprocess.STDOUT, cwd=work)
    try:
        s = json.load(open(work + "/summary.json"))
    except Exception:
        print(open(work + "/out.txt").read()[-3000:])
        print("NO-ANSWER property=%s: the engine did not finish" % pid)
        return 2
    # ---- replay
    cexs = []
    for fn in sorted(glob.glob(work + "/cex-*.txt"), key=lambda p: int(re.findall(r"cex-(\d+)", p)[0])):
        d = {"file": fn, "text": open(fn).read()}
        for line in d["text"].splitlines():
            k, _, v = line.partition(" ")
            if k in ("scenario", "label", "kind", "detail", "model"):
                d[k] = v
        cexs.append(d)
    viol, known, unrep = [], {}, []
    findings = [f for f in json.load(open(VERIF + "/known_findings.json"))["findings"] if f["property"] == pid and f.get("status") != "fixed"]
    if cexs:
        nexe = work + "/native"
        try:
            build(cfg, "nat", nexe)
        except Exception as e:
            log(str(e))
            print(str(e)[-3000:])
            nexe = None
        if nexe:
            env2 = dict(env)
            seen = {}
            for d in cexs:
                k = (d["scenario"], d["label"])
                f = next((f for f in findings if matches(f, d)), None)
                d["known"] = f
                if seen.get((k, bool(f)), 0) >= 1:
                    continue
                env2["SYM_REPLAY"] = d["file"]
                try:
                    rr = subprocess.run([nexe], env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, cwd=work)
                    d["replay"] = rr.stdout[-1500:]
                    d["reproduced"] = rr.returncode == 7 or "REPRODUCED" in rr.stdout or (rr.returncode < 0 and d["label"].startswith("no-crash"))
                except subprocess.TimeoutExpired:
                    d["replay"] = "timeout"
                    d["reproduced"] = False
                with open(d["file"], "a") as fo:
                    fo.write("# replay on the uninstrumented build:\n" + "".join("# " + l + "\n" for l in d["replay"].splitlines()))
                if d["reproduced"]:
                    seen[(k, bool(f))] = seen.get((k, bool(f)), 0) + 1
                    if f:
                        known[f["id"]] = f
                    else:
                        viol.append(d)
                else:
                    unrep.append(d)
        else:
            unrep = cexs
    repro = {(d["scenario"], d["label"]) for d in cexs if d.get("reproduced")}
    unrep = [d for d in unrep if (d["scenario"], d["label"]) not in repro]
    # ---- evidence
    labs = s["labels"]
    checked = sum(l["checked"] for l in labs)
    disc = sum(l["nf"] + l["solver"] for l in labs)
    und = sum(l["undecided"] for l in labs)
    reached = [l["name"] for l in labs if l["reached"]]
    vac = []
    scn = set()
    for h in cfg["harness"]:
        txt = open(VERIF + "/harness/" + h).read()
        for m in re.finditer(r"^SCENARIO(_THOROUGH)?\((\w+)\)", txt, re.M):
            if tier == "thorough" or not m.group(1):
                scn.add(m.group(2))
    if os.environ.get("SYM_ONLY"):
        scn = {os.environ["SYM_ONLY"]}
    for n in sorted(scn):
        if not any(l["name"].startswith(n + "/") and l["checked"] for l in labs):
            vac.append(n)
    replay_path = ""
    if viol:
        keep = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(keep, exist_ok=True)
        replay_path = os.path.join(keep, pid + ".txt")
        shutil.copy(viol[0]["file"], replay_path)
    cov = {
        "states": s["paths"], "transitions": s["forks"], "traces_validated_against_impl": s.get("witnesses_replayed", 0) + sum(1 for d in cexs if "replay" in d),
        "samples": s.get("samples", [])[:6] + [l["name"] for l in labs if l["checked"]][:12],
        "explanation": "states = symbolic paths completed (each stands for all inputs of its path condition), transitions = satisfiable branch splits; "
                       "obligations are discharged for every value of the symbolic inputs of a path by algebraic normal form or by Z3",
        "bounds": cfg.get("bounds", ""), "environment_stubs": cfg.get("stubs_doc", ""),
        "units_instrumented": ["src/" + t for t in cfg["tus"]],
        "functions_encoded_count": len(s["functions"]), "functions_encoded": s["functions"],
        "scenarios": sorted(scn), "scenarios_without_obligation": vac,
        "paths_assumed_out": s["assumed_out"], "paths_infeasible": s["infeasible"], "paths_truncated_by_time": s["truncated"],
        "paths_ended_unsupported": s["unsupported"] + s["leaks"], "engine_messages": s["messages"],
        "obligations": checked, "discharged": disc,
        "discharged_by_normal_form": sum(l["nf"] for l in labs), "discharged_by_solver_under_path_condition": sum(l["solver"] for l in labs),
        "obligations_undecided": und,
        "queries": s["queries"], "queries_sat": s["sat"], "queries_unsat": s["unsat"], "queries_unknown": s["unknown"],
        "solver_seconds": round(s["solver_s"], 2), "explore_seconds": round(s["wall_s"], 2), "build_seconds": round(bt, 2),
        "labels": [{k: l[k] for k in ("name", "checked", "undecided", "violated")} for l in labs if l["checked"]],
        "violations_found": [{"scenario": d["scenario"], "label": d["label"], "detail": d["detail"], "replay": d.get("replay", "")[-600:]} for d in viol[:10]],
        "known_findings_seen": sorted(known),
        "unreproduced_counterexamples": [{"scenario": d["scenario"], "label": d["label"], "detail": d["detail"], "replay": d.get("replay", "")[-300:]} for d in unrep[:10]],
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": ["real arithmetic on symbolic values (floating-point rounding is outside the claim)", "bounds: " + cfg.get("bounds", "")] +
                         (["environment: " + cfg["stubs_doc"]] if cfg.get("stubs_doc") else [])}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d paths, %d obligations (%d discharged, %d undecided), %d queries (%d unknown), solver %.1fs, explore %.1fs, build %.1fs" %
          (pid, s["paths"], checked, disc, und, s["queries"], s["unknown"], s["solver_s"], s["wall_s"], bt))
    for m in s["messages"]:
        print("  engine: " + m)
    if s["truncated"]:
        print("  truncated by time: %d paths" % s["truncated"])
    for d in unrep:
        print("  UNREPRODUCED %s/%s: %s | %s" % (d["scenario"], d["label"], d["detail"][:300], d.get("replay", "")[-200:].replace("\n", " / ")))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if viol:
        for d in viol:
            print("  %s/%s: %s | %s" % (d["scenario"], d["label"], d["detail"][:300], d.get("replay", "")[-300:].replace("\n", " / ")))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        return 1
    if vac or disc == 0:
        print("NO-ANSWER property=%s: no obligation reached in %s" % (pid, vac))
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    # keep only what is needed
    if not os.environ.get("SYM_KEEP"):
        for n in ("sym", "native"):
            try:
                os.remove(os.path.join(BUILD, "run-" + sys.argv[1], n))
            except OSError:
                pass
    sys.exit(rc)
