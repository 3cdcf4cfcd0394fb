"""Builds the simulator from /repo's working tree and /verif/sim. Objects are cached by the
content of everything that goes into them, so a rebuild after an edit compiles what changed."""
import hashlib, os, re, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-19" if subprocess.run(["sh", "-c", "command -v clang++-19"], stdout=subprocess.DEVNULL).returncode == 0 else "clang++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function"]
BASE = ["-std=c++23", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w"] + SAN
DEFS = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED"]
LINK = ["-lspdlog", "-lfmt", "-lssl", "-lcrypto", "-ldl", "-lpthread", "-rdynamic",
        "-Wl,--wrap=_ZN3ion11Http2Server5startEt", "-Wl,--wrap=SSL_new", "-Wl,--wrap=_ZN3ion6Poller6createEv", "-Wl,--wrap=_Znwm"]

VERSION_H = '''#pragma once
#include <string_view>
namespace ion {
static constexpr std::string_view BUILD_VERSION = "sim";
static constexpr std::string_view SERVER_HEADER = "ion";
}
'''

def read(p):
    with open(p, "rb") as f:
        return f.read()

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]

def tree(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return sorted(out)

def sources():
    libs = [p for p in tree(os.path.join(REPO, "lib"), {".cpp", ".cc", ".c"})]
    apps = [p for p in tree(os.path.join(REPO, "app"), {".cpp", ".cc", ".c"})]
    if sys.platform.startswith("linux"):  # the build leaves out other platforms' files in the same way
        libs = [p for p in libs if "kqueue" not in p and "macos" not in p]
    skip = lambda p: os.path.basename(p).startswith("test_") and "test_routes" not in p or "/tests/" in p or "/test/" in p
    return [p for p in libs if not skip(p)], [p for p in apps if not skip(p)]

def build(verbose=False, jobs=None):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    vh = os.path.join(gen, "version.h")
    if not os.path.exists(vh) or read(vh).decode() != VERSION_H:
        with open(vh, "w") as f:
            f.write(VERSION_H)
    libs, apps = sources()
    sims = tree(os.path.join(VERIF, "sim"), {".cpp"})
    hdr_repo = tree(os.path.join(REPO, "lib"), {".h", ".hpp", ".inc", ".ipp"}) + tree(os.path.join(REPO, "app"), {".h", ".hpp", ".inc", ".ipp"})
    hdr_sim = tree(os.path.join(VERIF, "sim"), {".h", ".hpp", ".inc"})
    hr = h(*[os.path.relpath(p, REPO).encode() + read(p) for p in hdr_repo])
    hs = h(*[os.path.relpath(p, VERIF).encode() + read(p) for p in hdr_sim])
    inc = ["-I" + os.path.join(VERIF, "sim/shim"), "-I" + gen, "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(REPO, "app")]
    work, objs = [], []
    for p in libs + apps + sims:
        flags = BASE + DEFS + inc
        if p in apps:
            flags = flags + ["-Dmain=ion_app_main"] if os.path.basename(p) == "main.cpp" else flags
        if p in sims:
            flags = flags + ["-I" + os.path.join(VERIF, "sim"), '-DCERT_DIR="%s/sim/certs"' % VERIF]
        key = h(CXX, " ".join(flags), VERSION_H, hr, hs, read(p))
        o = os.path.join(BUILD, "obj", os.path.basename(p) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            work.append((p, o, flags))
    # the slow ones first
    work.sort(key=lambda w: -os.path.getsize(w[0]))
    errs = []
    def comp(w):
        p, o, flags = w
        t = o + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", p, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            errs.append((p, r.stdout.decode(errors="replace")))
        else:
            os.rename(t, o)
    with cf.ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        list(ex.map(comp, work))
    if errs:
        for p, e in errs[:3]:
            sys.stderr.write("cannot compile %s:\n%s\n" % (p, e[:4000]))
        return None
    exe = os.path.join(BUILD, "sim-" + h(" ".join(objs), " ".join(LINK)))
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + SAN + objs + LINK + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write("cannot link:\n%s\n" % r.stdout.decode(errors="replace")[-4000:])
            return None
        os.rename(t, exe)
    # forget what older trees left behind
    keep = set(objs) | {exe}
    for d, pat in ((os.path.join(BUILD, "obj"), "*.o"), (BUILD, "sim-*")):
        fs = sorted(glob.glob(os.path.join(d, pat)), key=os.path.getmtime)
        for f in fs[:-400 if pat == "*.o" else -4]:
            if f not in keep:
                try:
                    os.unlink(f)
                except OSError:
                    pass
    return exe

if __name__ == "__main__":
    import time
    t = time.time()
    e = build()
    if not e:
        sys.exit(2)
    print(e, "%.1fs" % (time.time() - t))
