#!/usr/bin/env python3
"""check.py <property> quick|thorough            run one check (VERIF_SEED selects the generated cases)
   check.py <property> replay <file>              re-run a recorded failure
   check.py setup                                 toolchain self-test
Builds the harness together with /repo's current sources, runs it, writes evidence/<property>.json."""
import sys, os, json, subprocess, tempfile, hashlib, shutil, time, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, ASSUME

WRAP = """pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_mutex_timedlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait
pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join pthread_detach
pthread_self pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort clock_gettime gettimeofday time nanosleep
clock_nanosleep usleep sched_yield __assert_fail""".split()
INSTR = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0".split()
COMMON = ["-std=c++17", "-g1", "-w", "-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED", "-DBOOST_THREAD_NO_LIB=1",
          "-DBOOST_THREAD_POSIX", "-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_SP_USE_STD_ATOMIC", "-DBOOST_ENABLE_ASSERT_HANDLER",
          "-I" + REPO + "/include", "-I" + V + "/shim", "-I" + V + "/h"]
LIBS = {"def": [], "noint": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "cxx11once": ["-DBOOST_THREAD_PROVIDES_ONCE_CXX11"], "epoch": ["-DBOOST_THREAD_DONT_USE_ATOMIC"],
        "v3": ["-DBOOST_THREAD_VERSION=3"], "v4": ["-DBOOST_THREAD_VERSION=4"], "v5": ["-DBOOST_THREAD_VERSION=5"], "noid": ["-DBOOST_THREAD_DONT_PROVIDE_BASIC_THREAD_ID"], "thr_none": None}
SRCS = ["src/pthread/thread.cpp", "src/pthread/once.cpp", "src/future.cpp", "src/tss_null.cpp"]
CACHE = os.path.join(V, ".cache")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

BUILD_LOG = [""]
def build(prop, tmp):
    """returns list of (variant, binary)"""
    spec = CHECKS[prop]
    repo_h = tree_hash([REPO + "/include", REPO + "/src"]); my_h = tree_hash([V + "/rt", V + "/shim", V + "/h"])
    jobs = {}
    def obj(key, cmd, dep):
        k = hashlib.sha256((" ".join(cmd) + dep).encode()).hexdigest()[:24]
        o = os.path.join(CACHE, k + ".o")
        jobs[o] = cmd + ["-o", o]
        return o
    os.makedirs(CACHE, exist_ok=True)
    rt_h = tree_hash([V + "/rt"])
    rt = [obj(n, ["clang++", "-std=c++17", "-O2", "-g1", "-w", "-c", V + "/rt/" + n + ".cpp"], rt_h) for n in ("sim", "pbt")]
    outs = []
    for b in spec["builds"]:
        lib = b.get("lib", "def"); lflags = LIBS[lib]; objs = []
        cc = ["clang++", "-O1"] + INSTR + COMMON
        if lflags is not None:
            for s in SRCS:
                objs.append(obj(s, cc + lflags + ["-c", REPO + "/" + s], repo_h))
        if b.get("plain"):
            cc = ["clang++", "-O1"] + COMMON
        objs.append(obj(b["src"], cc + b.get("flags", []) + ["-c", V + "/h/" + b["src"]], repo_h + my_h))
        outs.append((b, objs))
    todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
    def run(oc):
        o, c = oc
        t = o + ".%d.tmp" % os.getpid()
        r = sh(c[:-1] + [t])
        if r.returncode == 0: os.replace(t, o)
        return r, c
    with ThreadPoolExecutor(8) as ex:
        # heaviest first
        for r, c in ex.map(run, sorted(todo, key=lambda oc: -("/h/" in " ".join(oc[1])))):
            if r.returncode:
                print("BUILD FAILED:", " ".join(c)); print(r.stdout[-6000:]); BUILD_LOG[0] = " ".join(c) + "\n" + r.stdout[-20000:]; return None
    bins = []
    for b, objs in outs:
        e = os.path.join(tmp, b["name"])
        r = sh(["clang++", "-no-pie"] + objs + rt + ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread", "-o", e])
        if r.returncode: print("LINK FAILED"); print(r.stdout[-4000:]); BUILD_LOG[0] = r.stdout[-20000:]; return None
        bins.append((b, e))
    return bins

def symbolize(binary, text):
    pcs = sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", text)))
    out = ""
    for p in pcs:
        r = sh(["addr2line", "-e", binary, "-f", "-C", "-i", "-p", "-s", hex(int(p, 16) - 1)])
        out += "%s: %s\n" % (p, r.stdout.strip())
    return out

def known_entries(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) binary=(\S+) scenario=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append(m.groups())
    return out

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for t in ("clang++", "addr2line"):
            if not shutil.which(t): print("missing", t); return 1
        print("toolchain ok"); return 0
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir="/tmp")
    try:
        bins = build(prop, tmp)
        if bins is None: bins = build(prop, tmp)      # once more: a build can fail for want of memory
        if bins is None:
            # the harness only uses the public interface of the property: a tree on which it no longer compiles has lost part of it
            if tier == "replay": return 1
            os.makedirs(os.path.join(V, "replays"), exist_ok=True); rp = os.path.join(V, "replays", "%s-build-%d.txt" % (prop, seed))
            open(rp, "w").write("the programs of %s do not compile against this tree\n%s" % (prop, BUILD_LOG[0]))
            print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
        tb = time.time() - t0
        if tier == "replay":
            txt = open(sys.argv[3]).read(); name = re.search(r"^binary (\S+)", txt, re.M).group(1)
            for b, e in bins:
                if b["name"] == name:
                    r = sh([e, "--replay", sys.argv[3]]); print(r.stdout); print(symbolize(e, r.stdout)); return r.returncode
            print("no binary", name); return 2
        spec = CHECKS[prop]; sums = []; viol = 0; lines = []
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        tl = {"quick": 150.0, "thorough": 840.0}[tier]
        wsum = float(sum(b.get(tier, b["quick"] * 20) for b, _ in bins))
        for b, e in bins:
            cases = b.get(tier, b["quick"] * 20)
            left = max(10.0, tl - (time.time() - t0))
            js = os.path.join(tmp, b["name"] + ".json"); rp = os.path.join(V, "replays", "%s-%s-%d.txt" % (prop, b["name"], seed))
            cmd = [e, "--seed", str(seed), "--cases", str(cases), "--out", js, "--replay-out", rp, "--prop", prop, "--bin", b["name"], "--time", "%.1f" % left, "--workers", "8"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if not os.path.exists(js):
                print("HARNESS ERROR %s rc=%s" % (b["name"], r.returncode)); print(r.stdout[-3000:]); return 2
            s = json.load(open(js)); s["variant"] = b["name"]; s["about"] = b.get("about", ""); sums.append(s)
            print("%s/%s: %d cases, %d non-trivial (%d distinct), %.1fs" % (prop, b["name"], s["evaluations"], s["nontrivial"], s["distinct_nontrivial"], s["wall_s"]))
            if s["failed"]:
                sym = symbolize(e, open(rp, errors="replace").read())
                open(rp, "a").write("--- code locations\n" + sym)
                print(r.stdout[-3500:]); print(sym)
                if s["reproduced"] == 3:
                    viol += 1; lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
                else:
                    print("NOTE: failure did not reproduce 3/3 (%d/3): %s" % (s["reproduced"], s["first_message"]))
                    if s["reproduced"] > 0: viol += 1; lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
                break
        for (_, bn, sc, desc) in known_entries(prop):
            for b, e in bins:
                if b["name"] == bn:
                    r = subprocess.run([e, "--scenario", sc, "--cases", "400", "--shrink", "0", "--seed", str(seed), "--replay-out", os.path.join(tmp, "k.txt")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if r.returncode == 1: print("KNOWN-FINDING: property=%s %s" % (prop, desc))
        tot = lambda k: sum(s[k] for s in sums)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": tot("evaluations"), "distinct_nontrivial": tot("distinct_nontrivial"),
                           "rule": " | ".join("%s: %s" % (s["variant"], s["rule"]) for s in sums),
                           "samples": [{"variant": s["variant"], "case": x} for s in sums for x in s["samples"][:3]][:12],
                           "per_variant": [{k: s[k] for k in s if k not in ("samples", "rule", "program")} for s in sums],
                           "scheduling_steps": tot("steps"), "context_switches": tot("switches")},
              "assumptions": ASSUME + spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        for l in lines: print(l)
        print("%s %s: build %.1fs total %.1fs" % (prop, tier, tb, time.time() - t0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    sys.exit(main())
