"""Builds, from /repo's current working tree, (a) the instrumented harness and (b) a plain replay binary."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DEFS = ['-DFL_BUILD_PATH="/repo"']
CF = ["-std=c++11", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO, "-I" + ENGINE, "-I" + os.path.join(VERIF, "harness"), "-w"] + DEFS
SYMF = ["-include", os.path.join(ENGINE, "sxpre.h"), "-I" + os.path.join(ENGINE, "shadow"), "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-O1", "-Xclang", "-disable-llvm-passes"]
PASSES = "sxmark,function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce,sx"


class BuildError(Exception):
    pass


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-3000:])
    return p.stdout


def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and f != "main.cpp"]
    return sorted(out)


def all_headers():
    hs = []
    for base in (os.path.join(REPO, "fuzzylite"), ENGINE, os.path.join(VERIF, "harness")):
        for d, _, fs in os.walk(base):
            hs += [os.path.join(d, f) for f in fs if f.endswith(".h")]
    return sorted(hs)


def header_key():
    rh = [h for h in all_headers() if h.startswith(REPO + "/")]
    vh = [h for h in all_headers() if not h.startswith(REPO + "/")]
    return filehash(*rh), filehash(*vh)


def cached(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    path = os.path.join(CACHE, key[:40] + suffix)
    if not os.path.exists(path):
        tmp = path + ".%d.tmp" % os.getpid()
        make(tmp)
        os.replace(tmp, path)
    else:
        os.utime(path)
    return path


def plugin():
    src = os.path.join(ENGINE, "sxpass.cpp")

    def make(out):
        flags = sh(["llvm-config-18", "--cxxflags"]).decode().split()
        sh(["clang++", "-O1", "-fPIC", "-shared"] + flags + [src, "-o", out])
    return cached(filehash(src) + "", ".so", make)


def runtime(name):
    src = os.path.join(ENGINE, name)
    return cached(filehash(src), ".rt.o", lambda out: sh(["clang", "-O2", "-w", "-c", src, "-o", out]))


def key(src, hk, extra):
    own = filehash(src)
    isrepo = src.startswith(REPO + "/")
    return hashlib.sha256(("|".join([own, hk[0], "" if isrepo else hk[1]] + extra)).encode()).hexdigest()


def build_sym(harness, pool):
    hk = header_key()
    plug = pool.submit(plugin)
    shadow = filehash(os.path.join(ENGINE, "sxpre.h"), os.path.join(ENGINE, "shadow", "fstream"))
    srcs = repo_sources() + [os.path.join(ENGINE, "models.cpp"), os.path.join(ENGINE, "sxmain.cpp"), harness]

    def one(src):
        def bc(out):
            sh(["clang++"] + CF + SYMF + ["-emit-llvm", "-c", src, "-o", out])
        passhash = filehash(os.path.join(ENGINE, "sxpass.cpp"))
        k = key(src, hk, CF + SYMF + [PASSES, passhash, shadow])

        def obj(out):
            b = out + ".bc"
            i = out + ".i.bc"
            bc(b)
            sh(["opt-18", "-load-pass-plugin", plug.result(), "-passes=" + PASSES, b, "-o", i])
            sh(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-c", i, "-o", out])
            os.unlink(b); os.unlink(i)
        return cached(k, ".sym.o", obj)
    objs = list(pool.map(one, sorted(srcs, key=lambda s: -os.path.getsize(s))))
    rt = runtime("sxrt.c")
    k = hashlib.sha256(("\n".join(objs) + rt).encode()).hexdigest()
    return cached(k, ".sym", lambda out: sh(["clang++"] + objs + [rt, "-lm", "-o", out]))


def build_plain(harness, pool, asan=False):
    hk = header_key()
    srcs = repo_sources() + [os.path.join(ENGINE, "sxmain.cpp"), harness]
    fl = ["-O1"] + (["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if asan else [])

    def one(src):
        k = key(src, hk, CF + fl + ["plain"])
        return cached(k, ".pl.o", lambda out: sh(["g++"] + CF + fl + ["-c", src, "-o", out]))
    objs = list(pool.map(one, sorted(srcs, key=lambda s: -os.path.getsize(s))))
    rt = cached(filehash(os.path.join(ENGINE, "sxplain.c")), ".rtp.o", lambda out: sh(["gcc", "-O1", "-w", "-c", os.path.join(ENGINE, "sxplain.c"), "-o", out]))
    k = hashlib.sha256(("\n".join(objs) + rt + "p").encode()).hexdigest()
    return cached(k, ".plain", lambda out: sh(["g++"] + fl + objs + [rt, "-lm", "-o", out]))


if __name__ == "__main__":
    with ThreadPoolExecutor(8) as pool:
        if sys.argv[1] == "plugin":
            print(plugin())
        elif sys.argv[1] == "plain":
            print(build_plain(os.path.abspath(sys.argv[2]), pool))
        elif sys.argv[1] == "sym":
            print(build_sym(os.path.abspath(sys.argv[2]), pool))
