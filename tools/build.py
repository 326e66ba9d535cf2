#!/usr/bin/env python3
"""Builds harnesses from /repo's current working tree into /verif/build (git-ignored).
Objects are keyed by a hash of their flags and of every source file they may include, so a change anywhere
in /repo/lib, /repo/include or /repo/src is seen whatever its mtime."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BEES_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
LIBS = "bytevector btrfs-tree chatter city cleanup crc64 error extentwalker fd fs multilock ntoa openat2 path process seeker string table task time uname".split()
SRCS = "bees bees-context bees-hash bees-resolve bees-roots bees-thread bees-trace bees-types".split()
BASE = "-std=c++17 -D_FILE_OFFSET_BITS=64 -Wno-missing-field-initializers -w -pthread".split()
TSAN = "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer".split()
PLAIN = "-O1 -g1".split()

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def repo_files(*pats):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p))
    return [f for f in out if os.path.isfile(f)]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)
    return r.stdout

def libnames():
    # every lib/*.cc, so that a file added or split off by a refactoring is picked up
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(REPO, "lib", "*.cc")))

def srcnames():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(REPO, "src", "*.cc")))

def gen_dir():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    def put(name, text):
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != text:
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, p)
    t = os.path.join(REPO, "lib", "configure.h.in")
    if os.path.exists(t):
        s = open(t).read()
        for k, v in (("@ETC_PREFIX@", "/etc"), ("@LIBEXEC_PREFIX@", "/usr/lib/bees"), ("@PREFIX@", "/usr"), ("@LIB_PREFIX@", "/usr/lib"), ("@DESTDIR@", "")):
            s = s.replace(k, v)
        put("configure.h", s)
    u = os.path.join(REPO, "src", "bees-usage.txt")
    if os.path.exists(u):
        lines = open(u).read().split("\n")
        if lines and lines[-1] == "": lines.pop()
        put("bees-usage.c", "const char *BEES_USAGE = \n" + "\n".join('"%s\\n"' % l for l in lines) + "\n;\n")
    put("bees-version.c", 'const char *BEES_VERSION = "verif";\n')
    return d

def build(name):
    spec = HARNESS[name]
    gen = gen_dir()
    hdrs = repo_files("include/*.h", "include/*/*.h", "lib/*.h", "src/*.h")
    vs = glob.glob(os.path.join(ROOT, "vs", "*.h")) + glob.glob(os.path.join(ROOT, "harness", "*.h"))
    jobs = []   # (source, flags, deps)
    inc = ["-I" + os.path.join(REPO, "include")]
    for l in libnames():
        if l in spec.get("libskip", ()): continue
        jobs.append((os.path.join(REPO, "lib", l + ".cc"), BASE + spec["flags"] + inc + ["-I" + gen, "-I" + os.path.join(REPO, "lib")], hdrs))
    if spec.get("src"):
        for s in srcnames():
            if s in spec.get("srcskip", ()): continue
            fl = BASE + spec["flags"] + inc + ["-I" + os.path.join(REPO, "src")]
            if s in spec.get("tsan", ()): fl = fl + TSAN
            if s == "bees": fl = fl + ["-Dmain=bees_real_main"]
            jobs.append((os.path.join(REPO, "src", s + ".cc"), fl, hdrs))
        jobs.append((os.path.join(gen, "bees-usage.c"), ["-O1"], []))
        jobs.append((os.path.join(gen, "bees-version.c"), ["-O1"], []))
    for h in spec["harness"]:
        p = os.path.join(ROOT, h)
        fl = BASE + (spec["hflags"] if h.startswith("harness/") else ["-O2", "-g1"])
        fl = fl + inc + ["-I" + os.path.join(ROOT, "vs"), "-I" + os.path.join(ROOT, "harness"), "-I" + os.path.join(REPO, "src")]
        jobs.append((p, fl, hdrs + vs))
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    hh = {}
    def one(job):
        src, fl, deps = job
        dk = tuple(deps)
        if dk not in hh: hh[dk] = filehash(deps)
        key = hashlib.sha256((" ".join(fl) + hh[dk] + filehash([src])).encode()).hexdigest()[:24]
        o = os.path.join(objdir, "%s.%s.o" % (os.path.basename(src), key))
        if not os.path.exists(o):
            cc = ["g++"] if src.endswith(".cc") else ["gcc"]
            tmp = o + ".tmp%d" % os.getpid()
            run(cc + fl + ["-c", src, "-o", tmp])
            os.replace(tmp, o)
        else:
            os.utime(o)
        return o
    for _, _, deps in jobs:
        dk = tuple(deps)
        if dk not in hh: hh[dk] = filehash(deps)
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(BUILD, name)
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest()
    if not os.path.exists(exe) or not os.path.exists(exe + ".key") or open(exe + ".key").read() != key:
        tmp = exe + ".tmp%d" % os.getpid()
        run(["g++", "-rdynamic", "-pthread", "-o", tmp] + objs + ["-latomic", "-ldl"])
        os.replace(tmp, exe)
        open(exe + ".key", "w").write(key)
    prune(objdir)
    return exe

def prune(objdir, keep=600):
    fs = sorted(glob.glob(os.path.join(objdir, "*.o")), key=os.path.getmtime)
    for f in fs[:-keep] if len(fs) > keep else []:
        try: os.unlink(f)
        except OSError: pass

HARNESS = {
    "h_util": dict(flags=TSAN, hflags=TSAN, harness=["harness/h_util.cc", "vs/vsched.cc"]),
    "h_bees": dict(flags=PLAIN, hflags=PLAIN, src=True, harness=["harness/h_bees.cc", "vs/bsim.cc", "vs/vsched.cc"]),
    "h_hash": dict(flags=PLAIN, hflags=PLAIN, src=True, tsan=("bees-hash",), harness=["harness/h_hash.cc", "vs/bsim.cc", "vs/vsched.cc"]),
    "h_tree": dict(flags=PLAIN, hflags=PLAIN, src=True, harness=["harness/h_tree.cc", "vs/bsim.cc", "vs/vsched.cc"]),
    "h_task": dict(flags=TSAN, hflags=PLAIN, harness=["harness/h_task.cc", "vs/vsched.cc"]),
}
if __name__ == "__main__":
    for n in (sys.argv[1:] or list(HARNESS)):
        print(build(n))
