#!/usr/bin/env python3
"""Builds the simulator and the programs of /repo's working tree, explores one property, writes its evidence.

  check.py C05 [--thorough]     explore (exit 0 held / 1 violation / 2 the machinery failed)
  check.py --replay FILE [--v]  replay a recorded failure against /repo's current tree
  check.py --build              build everything
  check.py --hashes N [C05..]   print the trace hash of the first N runs of properties (determinism)
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPOC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
APPS = ["compress", "decompress", "diff", "filter", "info", "merge", "srs", "tile", "tool", "transform"]
EXAMPLES = ["noop", "generate_infinite_points", "stream_averaging"]
ALL = APPS + EXAMPLES + ["node", "spocpy"]

HOST_FLAGS = ["-std=c++20", "-O1", "-g", "-Wall", "-Wextra", "-Wno-unused-parameter"]
MOD_FLAGS = ["-std=c++20", "-Og", "-fno-tree-fre", "-g1", "-DNDEBUG", "-fopenmp", "-fsanitize=thread", "-fPIC", "-fno-gnu-unique", "-w"]
WRAP = "-Wl,-Bsymbolic,--wrap=memcpy,--wrap=memmove,--wrap=memset"
SLOTS = 3

sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import PROPS, LEVEL, ASSUME  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def headers_of_repo():
    out = []
    for d in ("spoc", "apps", "examples", "spocpy"):
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            if "/build" in base:
                continue
            out += [os.path.join(base, f) for f in fs if f.endswith((".h", ".hpp", ".cpp", ".c", ".cc"))]
    return out


class BuildError(Exception):
    pass


def compile_to(target, cmd):
    if os.path.exists(target):
        return
    tmp = target + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    os.replace(tmp, target)


PY_INC = ["-I/usr/include/python3.12"]
PY_LIB = ["-l:libpython3.12.so.1.0"]
PY_HARNESS = ["-std=c++20", "-O1", "-g1", "-fPIC", "-w"]  # our own part of the module: not instrumented


def mod_cmd(m):
    if m == "node":
        return [os.path.join(SIM, "node.cpp")], ["-I" + REPO, "-I" + SIM]
    if m == "spocpy":
        return [os.path.join(REPO, "spocpy", "spocpy", "spocpy.cpp")], ["-I" + REPO] + PY_INC
    if m in EXAMPLES:
        return [os.path.join(REPO, "examples", m + ".cpp")], ["-I" + REPO]
    return [os.path.join(REPO, "apps", m, m + ".cpp")], ["-I" + REPO, "-I" + os.path.join(REPO, "apps", m)]


def build(mods, verbose=True):
    """-> (binary, module dir). Only what is needed, cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    hdrs = [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(".h")]
    srcs = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".cpp") and not f.startswith("node")]  # node*.cpp: parts of modules
    cc = sh(["g++", "--version"]).stdout.splitlines()[0]
    jobs, objs = [], []
    for s in srcs:
        key = digest(hdrs + [s], cc + " ".join(HOST_FLAGS))
        o = os.path.join(BUILD, "host-%s-%s.o" % (os.path.basename(s)[:-4], key))
        objs.append(o)
        jobs.append((o, ["g++"] + HOST_FLAGS + ["-c", s]))
    repo_files = headers_of_repo()
    rkey = digest(repo_files, cc + " ".join(MOD_FLAGS) + WRAP)
    nkey = digest([os.path.join(SIM, f) for f in ("node.cpp", "node.h", "ref.h", "sim.h")])
    mobj = {}
    for m in mods:
        src, inc = mod_cmd(m)
        k = rkey + (nkey if m == "node" else "")
        o = os.path.join(BUILD, "mod-%s-%s.o" % (m, hashlib.sha256(k.encode()).hexdigest()[:20]))
        mobj[m] = o
        jobs.insert(0, (o, ["g++"] + MOD_FLAGS + inc + ["-c"] + src))
        if m == "spocpy":
            src = os.path.join(SIM, "node_py.cpp")
            pyo = os.path.join(BUILD, "pyharness-%s.o" % digest(hdrs + [src], cc))
            jobs.insert(0, (pyo, ["g++"] + PY_HARNESS + PY_INC + ["-I" + SIM, "-c", src]))
            mobj[m] = o + " " + pyo
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for f in [ex.submit(compile_to, *j) for j in jobs]:
            f.result()
    okey = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
    binary = os.path.join(BUILD, "spocsim-" + okey)
    compile_to(binary, ["g++", "-rdynamic"] + objs + ["-lz", "-ldl", "-pthread"])
    mkey = hashlib.sha256(" ".join(sorted(mobj.values())).encode()).hexdigest()[:20]
    mdir = os.path.join(BUILD, "mods-" + mkey)
    os.makedirs(mdir, exist_ok=True)

    def link(m):
        first = os.path.join(mdir, m + ".0.so")
        compile_to(first, ["g++", "-shared", WRAP] + mobj[m].split() + (PY_LIB if m == "spocpy" else []) + ["-lz"])
        for i in range(1, SLOTS):
            t = os.path.join(mdir, "%s.%d.so" % (m, i))
            if not os.path.exists(t):
                shutil.copyfile(first, t + ".%d.tmp" % os.getpid())
                os.replace(t + ".%d.tmp" % os.getpid(), t)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(link, mods))
    if verbose:
        print("built %d module(s) of %s and the simulator in %.1f s" % (len(mods), REPO, time.time() - t0), flush=True)
    return binary, mdir


def known_lines():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    return open(p).read().splitlines() if os.path.exists(p) else []


def run_sim(binary, args, **kw):
    return subprocess.run([binary] + args, **kw)


def replay_file(path, v=False):
    prop = None
    for l in open(path):
        if l.startswith("prop "):
            prop = l.split()[1]
    cfg = PROPS[prop]
    binary, mdir = build(cfg["mods"], verbose=False)
    a = ["replay", path, "--dir=" + mdir, "--mods=" + ",".join(cfg["mods"]), "--slots=%d" % SLOTS]
    if v:
        a.append("--v")
    return run_sim(binary, a).returncode


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay_file(args[1], "--v" in args)
    if args[:1] == ["--build"]:
        build(ALL)
        return 0
    if args[:1] == ["--hashes"]:
        for p in args[2:] or sorted(PROPS):
            binary, mdir = build(PROPS[p]["mods"], verbose=False)
            r = run_sim(binary, ["hashes", "--prop=" + p, "--seed=" + os.environ.get("VERIF_SEED", "1"), "--runs=" + args[1], "--dir=" + mdir, "--mods=" + ",".join(PROPS[p]["mods"])], stdout=subprocess.PIPE, text=True)
            sys.stdout.write("".join("%s %s\n" % (p, l) for l in r.stdout.splitlines()))
        return 0
    if args[:1] == ["--one"]:
        c = PROPS[args[1]]
        binary, mdir = build(c["mods"], verbose=False)
        return run_sim(binary, ["one", "--prop=" + args[1], "--idx=" + args[2], "--seed=" + os.environ.get("VERIF_SEED", "1"), "--dir=" + mdir, "--mods=" + ",".join(c["mods"])] + args[3:]).returncode
    prop = args[0]
    cfg = PROPS[prop]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    if "--quick" in args:
        thorough = False
    tier = "thorough" if thorough else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16))
    t0 = time.time()
    try:
        binary, mdir = build(cfg["mods"])
    except BuildError as e:
        print("the code under test or the simulator does not build:\n%s" % e, file=sys.stderr)
        return 2
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="spocsim-")
    try:
        out = os.path.join(tmp, "out.json")
        runs = 10 ** 9 if thorough else cfg.get("runs", 6000)
        secs = float(os.environ.get("SPOCSIM_SECS", 0)) or (cfg.get("thorough_secs", 600) if thorough else cfg.get("secs", 45))
        if os.environ.get("SPOCSIM_RUNS"):
            runs = int(os.environ["SPOCSIM_RUNS"])
        a = ["batch", "--prop=" + prop, "--seed=" + seed, "--runs=%d" % runs, "--secs=%g" % secs, "--dir=" + mdir, "--mods=" + ",".join(cfg["mods"]), "--slots=%d" % SLOTS,
             "--workers=%d" % (os.cpu_count() or 8), "--tmp=" + tmp, "--replays=" + replays, "--out=" + out, "--known=" + os.path.join(VERIF, "KNOWN_FINDINGS.txt"), "--tier=" + tier]
        a += [x for x in args[1:] if x.startswith("--scenario=") or x == "--keep-going"]
        r = run_sim(binary, a, stderr=subprocess.PIPE, text=True)
        if not os.path.exists(out):
            print("the simulator failed: %s" % r.stderr, file=sys.stderr)
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rc = 0
    viol = 0
    for v in res["violations"]:
        if v["known"]:
            for l in known_lines():
                if l.startswith("known: property=%s class=%s " % (prop, v["class"])):
                    print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 3)[3]))
            continue
        if not v["replay"]:
            print("also: %s (%d runs)" % (v["class"], v["count"]))
            continue
        # the replay file must reproduce the violation exactly, in a fresh process
        q = run_sim(binary, ["replay", v["replay"], "--dir=" + mdir, "--mods=" + ",".join(cfg["mods"]), "--slots=%d" % SLOTS], stdout=subprocess.PIPE, text=True)
        if q.returncode != 1:
            print("replay of %s in a fresh process did not reproduce it (%d): %s" % (v["class"], q.returncode, q.stdout), file=sys.stderr)
            rc = max(rc, 2)
            continue
        viol += 1
        print("%s: %s\n  scenario %s, first seen in run %d of seed %s, %d runs; minimised to %d choices in %d re-runs" % (v["class"], v["detail"], v["scenario"], v["first_run"], seed, v["count"], v["choices"], v["min_runs"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
    for i in res["infra"]:
        print("infra: " + i, file=sys.stderr)
    if viol:
        rc = 1
    elif res["infra"]:
        rc = 2
    # a known finding that is not met on this run is still listed
    met = {v["class"] for v in res["violations"] if v["known"]}
    for l in known_lines():
        m = re.match(r"known: property=%s class=(\S+) (.*)" % prop, l)
        if m and m.group(1) not in met:
            print("KNOWN-FINDING: property=%s %s (not met in this run)" % (prop, m.group(2)))
    wall = time.time() - t0
    n = max(1, res["runs"])
    faults = {k[6:]: v for k, v in res["notes"].items() if k.startswith("fault.")}
    probes = {k: v for k, v in res["notes"].items() if not k.startswith("fault.")}
    cov = {
        "evaluations": res["runs"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": cfg["rule"], "samples": res["samples"][:12],
        "technique": "deterministic simulation with fault injection: seeded search over schedules, chunkings, faults and inputs",
        "simulated_runs_per_hour": int(res["runs"] / max(res["wall_s"], 1e-3) * 3600),
        "seeds_per_hour": int(res["runs"] / max(res["wall_s"], 1e-3) * 3600),
        "simulated_seconds": res["sim_ns"] / 1e9,
        "nontrivial_runs": res["nontrivial"],
        "distinct_interleavings": res["distinct_interleavings"],
        "distinct_measure": "distinct 64 bit hashes of the complete event trace of nontrivial runs; interleavings: distinct hashes of the sequence of scheduling decisions (which process or thread runs next at which point)",
        "faults_injected": faults, "probes": probes, "scenarios": res["scenarios"],
        "choices_drawn": res["choices"], "determinism_rechecks": res["determinism_rechecks"], "workers": res["workers"],
        "real_code": cfg.get("real") or ["/repo: " + m for m in cfg["mods"] if m != "node"] + ["/repo/spoc headers", "libstdc++ iostreams and containers", "zlib"],
        "stubs": ["kernel: files, pipes, descriptors, signals, exit status, clocks, entropy", "thread scheduler and OpenMP runtime (libgomp entry points)", "heap (malloc and new) with poisoning and limits", "memory access hooks (-fsanitize=thread instrumentation served by our runtime)"],
        "violation_classes": [{"class": v["class"], "count": v["count"], "known": v["known"]} for v in res["violations"]],
    }
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "assumptions": ASSUME + cfg.get("assume", []), "wall_s": round(wall, 2), "violations": viol}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs (%d nontrivial, %d distinct) in %.1f s, %d violation class(es)%s" % (prop, tier, res["runs"], res["nontrivial"], res["distinct_nontrivial"], wall, viol, "" if rc != 2 else " - INCOMPLETE"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
