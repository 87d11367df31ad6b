#!/usr/bin/env python3
"""Builds the simulation executable for one property from /repo's working tree and /verif/sim.
Objects are cached by content under /verif/build; nothing is read from /repo's own build."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
SUT = ["g++", "-std=gnu++11", "-Wno-error", "-w", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-pie", "-pthread",
       "-include", "string", "-include", "functional", "-DEIGEN_MAX_CPP_VER=3", "-I" + REPO + "/include", "-I/usr/include/eigen3"]
SCN = ["g++", "-std=gnu++14", "-w", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-pie", "-pthread",
       "-include", "string", "-include", "functional", "-DEIGEN_MAX_CPP_VER=3", "-I" + SIM, "-I" + REPO + "/include", "-I/usr/include/eigen3"]
CORE = ["g++", "-std=gnu++17", "-w", "-O2", "-g1", "-fno-pie", "-pthread", "-I" + SIM]
RAW = " ".join("--redefine-sym %s=__real_%s" % (f, f) for f in ("memcpy", "memmove", "memset"))   # harness code is not instrumented
APPS = {"lda": "lda_main", "slda": "slda_main", "fslda": "fslda_main"}
# scenario sources, and whether the console applications are linked in
PROPS = {"C%02d" % i: (["c%02d.cpp" % i], i in (6, 8, 9, 10, 11, 13)) for i in range(1, 19)}

def sh(*fs):
    h = hashlib.sha256()
    for f in fs:
        with open(f, "rb") as g: h.update(f.encode() + b"\0" + g.read() + b"\0")
    return h.hexdigest()
def tree(d, pats):
    r = []
    for root, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(pats): r.append(os.path.join(root, f))
    return r
class Builder:
    def __init__(self):
        self.repo_h = sh(*tree(REPO + "/include", (".hpp", ".h", ".tpp", ".inl")), *tree(REPO + "/src", (".hpp", ".h", ".tpp", ".inl")))
        self.sim_h = sh(*tree(SIM, (".h",)))
        os.makedirs(B + "/obj", exist_ok=True)
        self.jobs = []
    def obj(self, flags, src, dep, extra=(), post=None):
        key = hashlib.sha256((" ".join(flags) + "|" + " ".join(extra) + "|" + str(post) + "|" + sh(src) + dep).encode()).hexdigest()[:24]
        o = "%s/obj/%s-%s.o" % (B, os.path.basename(src).replace(".cpp", ""), key)
        if not os.path.exists(o): self.jobs.append((flags + list(extra), src, o, post))
        return o
    def run(self):
        def one(j):
            flags, src, o, post = j
            t = o + ".tmp%d.o" % os.getpid()
            r = subprocess.run(flags + ["-c", src, "-o", t], capture_output=True, text=True)
            if r.returncode: return "compiling %s failed:\n%s" % (src, r.stderr[-4000:])
            if post and post.startswith("main="):
                # an application: its main gets a name of its own, its other functions stay inside (templates excepted)
                r = subprocess.run(["nm", "-P", "--defined-only", t], capture_output=True, text=True)
                loc = [l.split()[0] for l in r.stdout.splitlines() if l.split()[1] in "TDBR" and l.split()[0] != "main"]
                r = subprocess.run(["objcopy", "--redefine-sym", post] + ["--localize-symbol=" + x for x in loc] + [t], capture_output=True, text=True)
                if r.returncode: return "objcopy: " + r.stderr
            elif post:
                r = subprocess.run(["objcopy"] + post.split() + [t], capture_output=True, text=True)
                if r.returncode: return "objcopy: " + r.stderr
            os.rename(t, o)
        # longest first
        self.jobs.sort(key=lambda j: -os.path.getsize(j[1]) - (100000 if "LDABuilder" in j[1] else 0))
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
            for e in ex.map(one, self.jobs):
                if e: raise SystemExit("BUILD-FAILED " + e)
def build(prop):
    b = Builder()
    srcs, apps = PROPS[prop]
    lib = tree(REPO + "/src/ldaplusplus", (".cpp",))
    objs = [b.obj(SUT, s, b.repo_h) for s in lib]
    if apps:
        a = REPO + "/src/applications"
        for s in sorted(glob.glob(a + "/*.cpp")):
            n = os.path.basename(s)[:-4]
            objs.append(b.obj(SUT, s, b.repo_h, (), "main=" + APPS[n] if n in APPS else None))
    objs.append(b.obj(SCN, SIM + "/stdx.cpp", ""))
    for s in srcs: objs.append(b.obj(SCN, SIM + "/" + s, b.repo_h + b.sim_h))
    for s in ["core.cpp", "runner.cpp", "ref.cpp"]: objs.append(b.obj(CORE, SIM + "/" + s, b.sim_h, (), RAW))
    b.run()
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = "%s/simrun-%s-%s" % (B, prop, key)
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-pthread", "-o", t] + objs +
                           ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=_ZNSo5writeEPKcl,--wrap=_ZNSi4readEPcl", "-ldocopt", "-ldl"], capture_output=True, text=True)
        if r.returncode: raise SystemExit("BUILD-FAILED link:\n" + r.stderr[-4000:])
        os.rename(t, exe)
    return exe
if __name__ == "__main__":
    for p in sys.argv[1:] or PROPS: print(build(p))
