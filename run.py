#!/usr/bin/env python3
"""Builds and runs one check:  run.py P01 [--only NAME] [--replay FILE] [--scale X] [--build-only]

Compiles the packages the check needs from /repo's current working tree (always, keyed by content when ccache
is there), the engine and checks/<ID>*.cpp, runs the resulting binary and writes evidence/<ID>.json.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, sysconfig, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_config import CHECKS  # noqa: E402

DEPS = {
    "sm_common": [], "sm_random": [], "sm_boost": ["sm_common"], "sm_eigen": ["sm_common", "sm_random"],
    "sm_kinematics": ["sm_boost", "sm_common", "sm_eigen", "sm_random"], "sm_logging": [],
    "sm_matrix_archive": ["sm_common"], "sm_property_tree": ["sm_common"],
    "sm_timing": ["sm_common", "sm_random"], "sm_value_store": ["sm_common", "sm_property_tree"],
}
BOOST = {
    "sm_boost": ["serialization", "thread", "system", "chrono", "date_time"], "sm_eigen": ["serialization"],
    "sm_kinematics": ["serialization", "filesystem"], "sm_logging": ["thread", "regex", "chrono", "system"],
    "sm_matrix_archive": ["filesystem", "system"], "sm_property_tree": ["filesystem", "system"],
    "sm_value_store": ["filesystem", "system"], "sm_timing": ["system"], "sm_common": ["system"], "sm_random": [],
}
EXTRA = {"sm_property_tree": ["-include", "boost/bind.hpp", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"],
         "sm_value_store": ["-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]}
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    # controlled scheduling (lib/sched.cpp): clang, with a call at every basic block, load and store
    "sched": ["-fsanitize=address,undefined", "-shared-libasan", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "none": [],
}
SCHED_COV = ["-fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores"]
FUZZ = ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"]


def closure(pkgs):
    out = []
    def add(p):
        for d in DEPS[p]:
            add(d)
        if p not in out:
            out.append(p)
    for p in pkgs:
        add(p)
    return out


def sources(pkg):
    """the library sources, as the package's CMakeLists.txt lists them, and its -D definitions"""
    d = os.path.join(REPO, pkg)
    srcs, defs = None, []
    try:
        text = re.sub(r"#[^\n]*", "", open(os.path.join(d, "CMakeLists.txt")).read())
        m = re.search(r"cs_add_library\(\s*\$\{PROJECT_NAME\}\s+([^)]*)\)", text)
        if m:
            srcs = [os.path.join(d, s) for s in m.group(1).split()]
        for c in re.findall(r"add_definitions\(([^)]*)\)", text):
            defs += re.findall(r"-D[A-Za-z0-9_=]+", c)
    except OSError:
        pass
    if not srcs or not all(os.path.isfile(s) for s in srcs):
        srcs = sorted(os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src")) if f.endswith(".cpp") and f != "lsma.cpp")
    return srcs, sorted(set(defs))


def python_sources():
    d = os.path.join(REPO, "sm_python")
    try:
        text = re.sub(r"#[^\n]*", "", open(os.path.join(d, "CMakeLists.txt")).read())
        m = re.search(r"add_python_export_library\(\s*\S+\s+\S+\s+([^)]*)\)", text)
        srcs = [os.path.join(d, s) for s in m.group(1).split()]
        if all(os.path.isfile(s) for s in srcs):
            return srcs
    except (OSError, AttributeError):
        pass
    return sorted(os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src")) if f.endswith(".cpp"))


def compiler(clang):
    cc = "clang++" if clang else "g++"
    return (["ccache", cc] if shutil.which("ccache") else [cc])


def build(pid, cfg, fuzz=False, san=None):
    san = san or cfg.get("san", "asan")
    tag = pid + ("-fuzz" if fuzz else "") + ("" if san == "asan" else "-" + san)
    bdir = os.path.join(HERE, "build", tag)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ, CCACHE_DIR=os.path.join(HERE, "build", "ccache"), CCACHE_MAXSIZE="4G", CCACHE_COMPILERCHECK="content",
               LC_ALL="C.UTF-8")
    for v in ("CXXFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "CCACHE_DISABLE"):
        env.pop(v, None)
    pk = closure(cfg["packages"])
    sanf = FUZZ if fuzz else SAN[san]
    clang = fuzz or san == "sched"
    base = compiler(clang) + ["-std=c++14", "-O1", "-g1", "-w", "-pthread"] + sanf
    inc = [f"-I{REPO}/{p}/include" for p in pk] + [f"-I{REPO}/sm_deprecation/include", "-isystem", "/usr/include/eigen3", f"-I{HERE}/lib", f"-I{HERE}/checks"]
    if cfg.get("python"):
        inc += [f"-I{HERE}/lib/pyshim", f"-I{REPO}/sm_python/include", "-isystem", sysconfig.get_path("include")]
    jobs, objs = [], []

    def obj(src, flags, instrument=True):
        if san == "sched" and instrument:
            flags = SCHED_COV + flags
        o = os.path.join(bdir, hashlib.sha1(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o")
        objs.append(o)
        jobs.append(base + flags + inc + ["-c", src, "-o", o])

    checks = sorted(f for f in os.listdir(os.path.join(HERE, "checks")) if re.match(pid + r"(_\w+)?\.cpp$", f))
    extra = []
    for p in pk:
        extra += [e for e in EXTRA.get(p, []) if e.startswith("-D")]
    for f in checks:
        obj(os.path.join(HERE, "checks", f), extra + [x.replace("/repo", REPO) for x in cfg.get("flags", [])] + (["-DPBT_LIBFUZZER"] if fuzz else []))
    obj(os.path.join(HERE, "lib", "pbt.cpp"), ["-DPBT_LIBFUZZER"] if fuzz else [], False)
    if san == "sched":
        obj(os.path.join(HERE, "lib", "sched.cpp"), ["-fno-threadsafe-statics", "-O2", "-fno-sanitize=all"], False)
    for p in pk:
        s, defs = sources(p)
        for f in s:
            obj(f, defs + EXTRA.get(p, []) + cfg.get("lib_flags", []))
    for s in cfg.get("sources", []):
        obj(s.replace("/repo", REPO), [x.replace("/repo", REPO) for x in cfg.get("flags", [])])
    if cfg.get("python"):
        for f in python_sources():
            obj(f, EXTRA["sm_value_store"])

    def run(cmd):
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, cmd, r.stdout

    with cf.ThreadPoolExecutor(8) as ex:
        for rc, cmd, out in ex.map(run, jobs):
            if rc:
                print("BUILD FAILED:", " ".join(cmd), "\n", out[-6000:], flush=True)
                sys.exit(2)
    libs = []
    for p in pk:
        libs += ["-lboost_" + b for b in BOOST[p] if "-lboost_" + b not in libs]
    libs += cfg.get("libs", [])
    if cfg.get("python"):
        v = "%d.%d" % sys.version_info[:2]
        libs += ["-lboost_python" + v.replace(".", ""), "-lpython" + v, "-Wl,-rpath," + (sysconfig.get_config_var("LIBDIR") or "/usr/lib")]
    binp = os.path.join(bdir, "check")
    cc = compiler(clang)[-1]
    if san == "sched":
        rt = subprocess.run([cc, "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        libs += ["-Wl,-rpath," + os.path.dirname(rt), "-rdynamic"]
    rc, cmd, out = run([cc] + sanf + ["-pthread", "-o", binp] + objs + libs + ["-ldl"])
    if rc:
        print("LINK FAILED:", " ".join(cmd), "\n", out[-6000:], flush=True)
        sys.exit(2)
    return binp


def fuzz_tier(pid, cfg, binp, env, seconds, replay_dir):
    """coverage-guided search over the properties marked for it; returns (rc, report)"""
    out = subprocess.run([binp, "--list"], env=env, stdout=subprocess.PIPE, text=True).stdout
    props = [l.split()[0] for l in out.splitlines() if l.split()[1] == "1"]
    if not props:
        return 0, {}
    fb = build(pid, cfg, fuzz=True)
    rep, rc = {}, 0
    for pr in props:
        td = tempfile.mkdtemp(prefix="pbt-scratch-fuzz-", dir=env.get("TMPDIR", "/tmp"))
        procs = []
        try:
            for k in range(8):
                cor = os.path.join(td, "corpus")
                os.makedirs(cor, exist_ok=True)
                sd = os.path.join(td, f"s{k}")
                os.makedirs(sd)
                e = dict(env, PBT_FUZZ_PROP=pr, PBT_SCRATCH=sd, PBT_FUZZ_REPLAY=os.path.join(td, f"fail{k}.replay"))
                log = open(os.path.join(td, f"log{k}"), "wb")
                procs.append(subprocess.Popen(
                    [fb, cor, f"-seed={int(env['VERIF_SEED']) * 100 + k + 1}", f"-max_total_time={int(seconds / len(props))}", "-max_len=2048",
                     "-timeout=60", "-rss_limit_mb=3000", f"-artifact_prefix={td}/art{k}-", "-reload=1", "-print_final_stats=1", "-detect_leaks=0"],
                    env=e, stdout=subprocess.DEVNULL, stderr=log, cwd=sd))
            while any(p.poll() is None for p in procs):
                if any(p.poll() not in (None, 0) for p in procs):
                    for p in procs:
                        if p.poll() is None:
                            p.terminate()
                time.sleep(0.5)
            execs = 0
            for k in range(8):
                t = open(os.path.join(td, f"log{k}"), errors="replace").read()
                m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
                execs += int(m.group(1)) if m else 0
            cov = re.findall(r"cov: (\d+)", t)
            rep[pr] = {"executions": execs, "edges": int(cov[-1]) if cov else 0, "corpus": len(os.listdir(os.path.join(td, "corpus")))}
            arts = sorted(f for f in os.listdir(td) if f.startswith("art"))
            for a in arts:
                r = subprocess.run([binp, "--bytes", pr, os.path.join(td, a), "--replay-dir", replay_dir], env=env)
                if r.returncode == 1:
                    rc = 1
                    break
                print(f"note: artifact {a} of {pr} does not fail in the check's own build", flush=True)
        finally:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            shutil.rmtree(td, ignore_errors=True)
        print(f"  fuzz {pr}: {rep.get(pr)}", flush=True)
        if rc:
            break
    return rc, rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--scale")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--san")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    cfg = CHECKS[a.id]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    env = dict(os.environ, VERIF_TIER=tier)
    seed = env.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = "1"
    env["VERIF_SEED"] = seed
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["PBT_KNOWN"] = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    binp = build(a.id, cfg, san=a.san)
    tb = time.time() - t0
    print(f"{a.id}: built in {tb:.1f} s", flush=True)
    if a.build_only:
        return 0
    rdir = os.path.join(HERE, "replays")
    cmd = (cfg.get("wrap", []) + [binp, "--replay-dir", rdir])
    if a.replay:
        return subprocess.run(cmd + ["--replay", os.path.abspath(a.replay)], env=env).returncode
    if a.only:
        cmd += ["--only", a.only]
    if a.scale:
        cmd += ["--scale", a.scale]
    res = os.path.join(HERE, "build", a.id + ".result.json")
    if os.path.exists(res):
        os.unlink(res)
    if "PBT_MAX_S" not in env:
        env["PBT_MAX_S"] = "450" if tier == "thorough" else "240"
    p = subprocess.run(cmd + ["--result", res], env=env)
    rc = p.returncode
    fz = {}
    if rc == 0 and tier == "thorough" and not a.only:
        rc, fz = fuzz_tier(a.id, cfg, binp, env, cfg.get("fuzz_s", 180), rdir)
    if rc not in (0, 1):
        print(f"{a.id}: the check itself ended with {rc}", flush=True)
        return 2
    if a.only or a.no_evidence:
        return rc
    r = json.load(open(res))
    cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"], "samples": r["samples"],
           "discarded": r["discarded"], "stopped_by_time": r["truncated"], "per_check": r["per_check"], "build_s": round(tb, 1)}
    if fz:
        cov["coverage_guided"] = fz
    ev = {"property": a.id, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": rc}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.id}: {'VIOLATED' if rc else 'held'} on {r['evaluations']} cases ({r['distinct_nontrivial']} distinct non-trivial), {time.time() - t0:.1f} s", flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
