#!/usr/bin/env python3
"""Builds the simulators of one property from /repo's working tree, runs them, gates and reports violations, writes the evidence.

usage: check.py <ID> [--tier quick|thorough] [--scale F]      exit 0: held, 1: VIOLATION, 2: error of the check
       check.py <ID> --replay FILE                            re-executes one replay file against the current tree
       check.py --setup                                       builds the parts that do not depend on /repo
"""
import threading
import sys, os, glob, json, subprocess, time, hashlib, shutil, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", os.path.join(VERIF, "_build"))
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.environ.get("VSIM_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

INC = ["-I" + os.path.join(REPO, "include"), "-I" + HERE]
FLAV = {
    "P": ["g++", "-std=c++17", "-O2", "-g1"],
    "P0": ["g++", "-std=c++17", "-O0"],
    "PC": ["clang++", "-std=c++17", "-O3"],
    "P3": ["g++", "-std=c++17", "-O3"],
    "A": ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute"],
    "C": ["clang++", "-std=c++17", "-O2"],
    "T": ["clang++", "-std=c++17", "-O1", "-fsanitize=thread"],       # instrumentation only: vt.cpp is the run-time library
    "T0": ["clang++", "-std=c++17", "-O0", "-fsanitize=thread"],
    "U": ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
}
COMMON = ["-pthread", "-w"]

from props import PROPS   # noqa: E402

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in ("include", "example"):
            for d, ds, fs in os.walk(os.path.join(REPO, base)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree

_local = None
def local_hash():
    global _local
    if _local is None:
        h = hashlib.sha256()
        for f in sorted(os.listdir(HERE)):
            p = os.path.join(HERE, f)
            if os.path.isfile(p) and f.endswith((".cpp", ".hpp", ".py")) and f not in ("props.py", "check.py"):
                h.update(f.encode()); h.update(open(p, "rb").read())
        _local = h.hexdigest()
    return _local

_guard, _locks = threading.Lock(), {}
def compile_obj(src, cmd, repo_dependent, extra_key=""):
    """compile one source to an object (reused only when every input is identical)"""
    key = digest(src, " ".join(cmd), local_hash(), tree_hash() if repo_dependent else "", extra_key)
    out = os.path.join(BUILD, "obj", key + ".o")
    with _guard: lock = _locks.setdefault(key, threading.Lock())
    with lock:                               # two builds may share an object
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(cmd + ["-c", src, "-o", tmp])
            if r.returncode != 0:
                raise CheckError("compilation of %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stderr[-6000:]))
            os.replace(tmp, out)
    return out

def compile_tool(rel, name, cmd, renames):
    """one of the repository's programs as an object whose main is <name>_main; the renamed symbols are the simulator's seams"""
    obj = compile_obj(os.path.join(REPO, rel), cmd, True)
    out = os.path.join(BUILD, "obj", digest("llvm-objcopy", obj, name, *renames) + "-tool.o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        args = ["llvm-objcopy",       # binutils cannot keep ASan's string groups apart
                "--redefine-sym", "main=%s_main" % name]
        for r in renames: args += ["--redefine-sym", r]
        r = sh(args + [obj, tmp])
        if r.returncode != 0: raise CheckError("objcopy: " + r.stderr)
        os.replace(tmp, out)
    return out

def build_binary(pid, b):
    """b: dict(name, flavor, sources, defs, link, raw sources)"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    base = FLAV[b["flavor"]] + COMMON
    plain = FLAV[b.get("core_flavor", b["flavor"])] + COMMON
    defs = ['-DBUILD_NAME="%s"' % b["name"]] + b.get("defs", [])
    jobs = []
    for s in b["sources"]:
        jobs.append((os.path.join(HERE, s), base + b.get("cflags", []) + defs + INC, True))
    for s in b.get("core", ["core.cpp", "ref.cpp"]):
        jobs.append((os.path.join(HERE, s), plain + ["-I" + HERE], False))
    for s in b.get("plain_sources", []):
        jobs.append((os.path.join(HERE, s), plain + defs + INC, True))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_obj(j[0], j[1], j[2]), jobs))
    for rel, name, renames in b.get("tools", []):
        objs.append(compile_tool(rel, name, base + INC, renames))
    out = os.path.join(BUILD, "%s-%s" % (pid, b["name"]))
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())    # a fleet links its own copy in parallel
    r = sh(plain + objs + ["-o", tmp] + b.get("link", []))
    if r.returncode != 0:
        raise CheckError("link failed: " + r.stderr[-4000:])
    os.replace(tmp, out)
    return out

def prepare(pid, P, tier):
    """extra artefacts (shared objects of a fleet, generated sources) made by a hook of the property"""
    env = dict(os.environ)
    env["VSIM_LONGHAUL"] = os.path.join(HERE, "longhaul.txt")
    env["VSIM_DIR"] = HERE
    env["VSIM_BUILD"] = BUILD
    if P.get("prepare"):
        env.update(globals()[P["prepare"]](pid, tier))
    return env

def fleet(pid, tier):
    """C09: every node is the same interpreter in a shared object built by another compiler, standard, level and set of flags"""
    count = {"quick": 400, "thorough": 2500}[tier]
    gen = build_binary(pid, PROPS[pid]["builds"][0])
    src = os.path.join(BUILD, "c09_ct_%d_%d.cpp" % (SEED, count))
    r = sh([gen, "--gen-programs", str(SEED), str(count)])
    if r.returncode != 0: raise CheckError("--gen-programs failed: " + r.stderr)
    open(src, "w").write(r.stdout)
    so = ["-w", "-fPIC", "-shared", "-fvisibility=hidden"]
    jobs = []
    for name, cmd in PROPS[pid]["nodes"]:
        jobs.append(("R", name, cmd.split() + so + (["-fno-gnu-unique"] if cmd.startswith("g++") else []), os.path.join(HERE, "c09_node.cpp"), []))
    for name, cmd in PROPS[pid]["ct_nodes"]:
        lim = ["-fconstexpr-ops-limit=20000000000", "-fconstexpr-loop-limit=100000000"] if cmd.startswith("g++") else ["-fconstexpr-steps=2000000000"]
        jobs.append(("C", name, cmd.split() + so + lim + ["-DVSIM_CT"], src, ["-DVSIM_CONST=const"]))
    # big-endian and 32-bit targets exist here only as far as the compiler evaluates constant expressions for them
    host = sorted(glob.glob("/usr/include/c++/[0-9]*"))[-1:] + sorted(glob.glob("/usr/include/x86_64-linux-gnu/c++/[0-9]*"))[-1:] + ["/usr/include/x86_64-linux-gnu", "/usr/include"]
    for name, cmd in PROPS[pid].get("foreign_nodes", []):
        jobs.append(("B", name, cmd.split() + ["-w", "-c", "-O0", "-fconstexpr-steps=2000000000", "-DVSIM_CT", "-DVSIM_FLAT"] + sum((["-isystem", d] for d in [os.path.join(HERE, "foreign")] + host), []), src, ["-DVSIM_CONST=const", "-fsyntax-only"]))
    for name, cmd in PROPS[pid].get("big_nodes", []):
        jobs.append(("E", name, cmd.split() + ["-O0", "-Xclang", "-disable-O0-optnone", "-w", "-fPIC", "-fvisibility=hidden", "-fno-exceptions", "-fno-rtti", "-D__regparm__(x)=", "-D_GLIBCXX_ASSERTIONS", "-DVSIM_BIG", "-emit-llvm", "-S"]
            + sum((["-isystem", d] for d in [os.path.join(HERE, "foreign")] + host), []), os.path.join(HERE, "c09_node.cpp"), []))
    rt = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.builtins-i386.a"))[-1:]
    for name, cmd in PROPS[pid].get("narrow_nodes", []):
        jobs.append(("X", name, cmd.split() + ["-w", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-stack-protector", "-fno-pic", "-D_GLIBCXX_ASSERTIONS", "-DVSIM_SERVE", "-nostdlib", "-static", "-fuse-ld=lld"]
            + sum((["-isystem", d] for d in [os.path.join(HERE, "foreign")] + host), []), os.path.join(HERE, "c09_node.cpp"), rt))
    bigend = os.path.join(HERE, "bigend.py")
    failed, absent = [], []
    def one(j):
        kind, name, cmd, s, alt = j
        cmd = cmd + ['-DVSIM_NODE_NAME="%s"' % name] + INC
        out = os.path.join(BUILD, "obj", digest(" ".join(cmd), open(s).read(), open(bigend).read(), local_hash(), tree_hash()) + ".so")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(cmd + [s, "-o", tmp] + (alt if kind == "X" else []))
            if kind == "B" and r.returncode == 0:
                q = sh(["llvm-objcopy", "--dump-section", "vsimct=" + tmp + ".bin", tmp, "/dev/null"])
                if q.returncode != 0: raise CheckError("node %s: %s" % (name, q.stderr))
                os.replace(tmp + ".bin", tmp)
            if kind == "E" and r.returncode == 0:
                # the compiler's code for the other byte order, run here with every access to memory reversed
                q = sh([sys.executable, bigend, tmp, tmp + ".ll"])
                os.unlink(tmp)
                if q.returncode == 3: absent.append("%s (%s)" % (name, q.stderr.strip()[:300])); return kind, out, name, False
                if q.returncode == 0: q = sh(["clang++", "-w", "-O1", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-x", "ir", tmp + ".ll", "-o", tmp])
                if q.returncode != 0: raise CheckError("node %s: %s" % (name, q.stderr[-3000:]))
                os.unlink(tmp + ".ll")
            if r.returncode != 0:
                # a program whose evaluation is well-defined at run time must be a constant expression
                if kind in "CB" and alt and sh(cmd + alt + [s, "-o", tmp]).returncode == 0: failed.append((name, r.stderr)); return kind, out, name, False
                if kind in "BEX":        # not a verdict on the library: this tree cannot be compiled for that target here
                    absent.append(name); return kind, out, name, False
                raise CheckError("node %s does not compile: %s\n%s" % (name, " ".join(cmd), r.stderr[-4000:]))
            os.replace(tmp, out)
        if kind == "X":                 # does this host execute it at all?
            try: runs = subprocess.run([out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
            except (OSError, subprocess.TimeoutExpired): runs = False
            if not runs: absent.append(name); return kind, out, name, False
        return kind, out, name, True
    jobs.sort(key=lambda j: "-O3" not in j[2] and "-O2" not in j[2])
    with ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(one, jobs))
    lst = os.path.join(BUILD, "c09-fleet-%s.txt" % tier)
    with open(lst, "w") as f:
        for kind, out, name, ok in sorted(done, key=lambda d: "REXCB".index(d[0])):
            if ok: f.write("%s %s%s\n" % (kind, out, " " + name if kind in "BX" else ""))
    if absent: print("note: not evaluated for " + ", ".join(sorted(absent)))
    if failed:
        failed.sort()
        name, err = failed[0]
        m = re.search(r"\bgo\((p\d+)", err)
        raise Violation("constants/not-a-constant-expression", "node %s: %s is not a constant expression: %s" % (name, m.group(1) if m else "a program", " ".join(l for l in err.splitlines() if "error" in l)[:1500]), tier)
    return {"VSIM_FLEET": lst}

class Violation(Exception):
    """found while the system under simulation was being built"""

def cores():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except Exception:
        return NCPU

def run_check(pid, tier, scale):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        fprep = ex.submit(prepare, pid, P, tier)
        bins = list(ex.map(lambda b: build_binary(pid, b), [b for b in P["builds"] if b.get(tier)]))
        try:
            env = fprep.result()
        except Violation as v:
            return build_violation(pid, P, tier, v, t0)
    tbuild = time.time() - t0
    results, violation = [], None
    for b, exe in zip([b for b in P["builds"] if b.get(tier)], bins):
        outj = os.path.join(BUILD, "%s-%s.json" % (pid, b["name"]))
        if os.path.exists(outj): os.remove(outj)
        rp = os.path.join(REPLAYS, "%s-%s.replay" % (pid, b["name"]))
        for f in (rp, rp + ".orig"):
            if os.path.exists(f): os.remove(f)
        cmd = [exe, "--seed", str(SEED), "--workers", str(b.get("workers") or cores()), "--out", outj, "--replay-out", rp,
               "--limit", str(b.get("limit", {"quick": 400, "thorough": 36000}[tier])), "--min-budget", "45"]
        for ph in b[tier]:
            cmd += ["--phase", "%s:%d" % (ph[0], max(1, int(ph[1] * scale))) + (":%d" % ph[2] if len(ph) > 2 else "")]
        r = sh(cmd, env=env, cwd=HERE)
        if r.returncode not in (0, 1) or not os.path.exists(outj):
            raise CheckError("simulator %s ended with %s:\n%s\n%s" % (b["name"], r.returncode, r.stdout[-3000:], r.stderr[-6000:]))
        j = json.load(open(outj))
        results.append((b, exe, j))
        if j["violation"]:
            # a fresh process must reproduce it from the file alone
            tried = []
            for f in (rp, rp + ".orig"):
                q = sh([exe, "--replay", f], env=env, cwd=HERE)
                tried.append((f, q.returncode, q.stdout[-2000:]))
                if q.returncode == 1:
                    violation = (b, f, j["violation"], q.stdout)
                    break
            if not violation:
                raise CheckError("a violation was found but its replay file does not reproduce it: %r" % (tried,))
            break
    write_evidence(pid, P, tier, results, violation, time.time() - t0, tbuild, env)
    for line in known(pid):
        print(line)
    if violation:
        b, f, v, out = violation
        print("violation class: %s" % v["class"])
        print("violation: %s" % v["message"])
        print("found by scenario %s run %s%s, choices %s minimised to %s in %s re-executions" % (v["scenario"], v["run"], " after %d earlier runs in the same process" % v["history"] if v.get("history") else "", v["tape_original"], v["tape_minimised"], v["minimiser_runs"]))
        print("replay with: python3 vsim/check.py %s --replay %s" % (pid, f))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    tot = sum(j["executed"] for _, _, j in results)
    print("%s %s: held on %d simulated runs (%.1f s, build %.1f s)" % (pid, tier, tot, time.time() - t0, tbuild))
    return 0

def build_violation(pid, P, tier, v, t0):
    cls, msg, tr = v.args
    rp = os.path.join(REPLAYS, "%s-build.replay" % pid)
    with open(rp, "w") as f:
        f.write("vsim-build-replay 1\nproperty %s\ntier %s\nseed %d\nclass %s\nmessage %s\n" % (pid, tr, SEED, cls, msg))
    # reproduced: the programs are generated and compiled again from the seed alone
    q = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "--replay", rp], stdout=subprocess.PIPE, text=True)
    if q.returncode != 1: raise CheckError("the build violation did not reproduce: " + q.stdout)
    write_evidence(pid, P, tier, [], None, time.time() - t0, time.time() - t0, {}, 1)
    print("violation class: %s\nviolation: %s" % (cls, msg))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1

def known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append("KNOWN-FINDING: property=%s %s" % (pid, m.group(2).strip()))
    return out

def write_evidence(pid, P, tier, results, violation, wall, tbuild, env, forced=0):
    ev = dict(property=pid, tier=tier, seed=SEED, level="exploration", wall_s=round(wall, 2), violations=1 if violation or forced else 0)
    phases, faults, probes = [], {}, {}
    execd = dnt = steps = ticks = oracles = states = rechecked = 0
    simwall = 0.0
    samples = []
    for b, exe, j in results:
        for p in j["phases"]:
            p = dict(p); p["build"] = b["name"]; phases.append(p)
            dnt += p["distinct_nontrivial"]; rechecked += p["rechecked"]; simwall += p["wall_s"]
        for k, v in j["faults"].items(): faults[k] = faults.get(k, 0) + v
        for k, v in j["probes"].items(): probes[k] = probes.get(k, 0) + v
        execd += j["executed"]; steps += j["steps"]; ticks += j["sim_ticks"]; oracles += j["oracles"]; states = max(states, j["states"])
        if not violation and len(samples) < 4:
            seen = set()
            for p in j["phases"]:
                if p["scenario"] in seen or p["executed"] < 200: continue
                seen.add(p["scenario"])
                r = sh([exe, "--seed", str(SEED), "--dump", p["scenario"], "3"], env=env, cwd=HERE)
                if r.stdout:
                    samples.append({"build": b["name"], "scenario": p["scenario"], "run": 3, "trace": r.stdout.splitlines()[:40]})
                if len(samples) >= 4: break
    if violation:
        samples.append({"violation": violation[2], "replay": violation[1]})
    cov = dict(
        evaluations=execd, distinct_nontrivial=dnt,
        rule=P["rule"] + " A run counts as distinct by the hash of its full event log (schedule, operations, faults); as non-trivial when at least one fault fired or an oracle was evaluated over a history the scenario marks as eventful.",
        samples=samples or [{"note": "no trace recorded"}],
        oracle_evaluations=oracles, faults_injected=faults, rare_conditions_hit=probes,
        abstract_states_reached=states, states_measure=P.get("states", "hash bitmap of scenario-specific abstract states"),
        scheduler_steps=steps, simulated_time_ticks=ticks, phases=phases,
        determinism_rechecked_runs=rechecked, simulated_runs_per_hour=int(execd / simwall * 3600) if simwall else 0,
        build_seconds=round(tbuild, 1), real_components=P["real"], stubbed_components=P["stub"])
    ev["coverage"] = cov
    ev["assumptions"] = P.get("assumptions", [])
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def replay(pid, path):
    P = PROPS[pid]
    global SEED
    path = os.path.abspath(path)
    build = None
    text = open(path).read()
    SEED = int(re.search(r"^seed (\d+)", text, re.M).group(1))       # generated sources depend on it
    m = re.search(r"^tier (\w+)", text, re.M)
    tier = m.group(1) if m else "quick"
    if text.startswith("vsim-build-replay"):
        try:
            prepare(pid, P, tier)
        except Violation as v:
            print("%s: %s" % v.args[:2]); print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("REPLAY no violation"); return 0
    for l in open(path):
        if l.startswith("build "): build = l.split()[1]; break
    b = [b for b in P["builds"] if b["name"] == build][0]
    env = prepare(pid, P, tier)
    exe = build_binary(pid, b)
    r = subprocess.run([exe, "--replay", path, "--verbose"], env=env, cwd=HERE)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return r.returncode

def setup():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = []
    for f in ("P", "A"):
        for s in ("core.cpp", "ref.cpp"):
            jobs.append((os.path.join(HERE, s), FLAV[f] + COMMON + ["-I" + HERE]))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_obj(j[0], j[1], False), jobs))
    # the reference models against hashlib and independent code
    exe = os.path.join(BUILD, "selftest")
    r = sh(FLAV["P"] + ["-I" + HERE, os.path.join(HERE, "selftest.cpp"), objs[1], "-o", exe])
    if r.returncode != 0: raise CheckError(r.stderr)
    out = sh([exe]).stdout
    p = os.path.join(BUILD, "selftest.txt")
    open(p, "w").write(out)
    r = sh([sys.executable, os.path.join(HERE, "selftest.py"), p])
    print(r.stdout.strip())
    return 0 if r.returncode == 0 else 2

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--setup": return setup()
    pid, tier, scale, rep = a[0], TIER, 1.0, None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--scale": scale = float(a[i + 1]); i += 2
        elif a[i] == "--replay": rep = a[i + 1]; i += 2
        else: print("unknown option", a[i]); return 2
    if rep: return replay(pid, rep)
    return run_check(pid, tier, scale)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e); sys.exit(2)
