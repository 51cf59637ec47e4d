#!/usr/bin/env python3
"""Builds a model-checking driver from /repo's CURRENT working tree.

Every translation unit goes through ccache (content-addressed on the
preprocessed input, so a change in what the code says is always seen), the
objects are linked afresh each time.  Nothing is written into /repo.

usage: build.py NAME [NAME...]     -> prints the path of each binary
       build.py --all              -> every driver (used by setup_cmd)
"""
import os, sys, subprocess, hashlib, concurrent.futures as cf
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")
SRC = os.path.join(REPO, "src")

CORE = ["Common", "crypto", "CryptoNoteCore", "Serialization", "Logging", "BlockchainExplorer"]
SYS = ["System", "Platform/Linux/System"]
NET = ["CryptoNoteProtocol", "P2p", "HTTP", "JsonRpcServer"]
RPC = ["Rpc"]
WAL = ["Transfers", "Wallet", "WalletLegacy", "Mnemonics", "NodeRpcProxy", "InProcessNode"]

# name -> dict(src=[harness sources], dirs=[...], exclude=[...], flavor)
exec(open(os.path.join(HERE, "tools", "targets.py")).read())

FLAVORS = {
  "std": ["-O2"],
  "asan": ["-O1", "-fsanitize=address,bounds,null,return,unreachable,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
LINKX = {"std": [], "asan": ["-fsanitize=address,bounds,null"]}
COMMON = ["-maes", "-march=x86-64", "-pthread", "-w", "-DNDEBUG", "-DHAVE_ROTR", "-DMINIUPNP_STATICLIB",
          "-D_DEFAULT_SOURCE", "-D_GNU_SOURCE", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
INC = [REPO + "/include", REPO + "/src", REPO + "/external", CACHE + "/version",
       REPO + "/src/Platform/Linux", REPO + "/external/parallel_hashmap", REPO + "/external/miniupnpc/include"]
LIBS = ["-lboost_filesystem", "-lboost_thread", "-lboost_serialization", "-lboost_program_options",
        "-lboost_regex", "-lboost_date_time", "-lboost_chrono", "-lboost_atomic", "-lboost_system", "-lresolv", "-lpthread", "-ldl"]

def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="4G",
             CCACHE_COMPILERCHECK="content", CCACHE_SLOPPINESS="", CCACHE_TEMPDIR=os.path.join(CACHE, "tmp"),
             CCACHE_NOCOMPRESS="1", LC_ALL="C", CCACHE_NODEPEND="1")
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e

def prep():
    for d in ("ccache", "tmp", "version", "obj", "bin"):
        os.makedirs(os.path.join(CACHE, d), exist_ok=True)
    v = os.path.join(CACHE, "version", "version.h")
    txt = "".join('#define %s "x"\n' % n for n in ("BUILD_COMMIT_ID", "PROJECT_VERSION", "PROJECT_VERSION_BUILD_NO",
          "PROJECT_VERSION_LONG", "CCX_RELEASE_VERSION", "CCX_WALLET_RELEASE_VERSION", "CCX_PAYMENT_SERVICE_RELEASE_VERSION"))
    if not os.path.exists(v) or open(v).read() != txt:
        open(v, "w").write(txt)
    z = os.path.join(CACHE, "version", "miniupnpcstrings.h")
    if not os.path.exists(z):
        open(z, "w").write('#pragma once\n#define OS_STRING "Linux"\n#define MINIUPNPC_VERSION_STRING "1.9"\n')

def sources(dirs, exclude):
    out = []
    for d in dirs:
        for root, _, files in os.walk(os.path.join(SRC, d)):
            for f in sorted(files):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, SRC)
                if f.endswith((".cpp", ".c")) and rel not in exclude:
                    out.append(p)
    return sorted(set(out))

def compile_one(job):
    src, obj, flags = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    lang = ["gcc", "-std=gnu11"] if src.endswith(".c") else ["g++"]
    if not src.endswith(".c") and not any(f.startswith("-std=") for f in flags):
        flags = ["-std=gnu++11"] + flags
    if src.endswith(".c"):
        flags = [f for f in flags if not f.startswith("-std=")]
    cmd = ["ccache"] + lang + flags + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, r.returncode, r.stdout

def build(names):
    prep()
    jobs, links, seen = [], [], {}
    for n in names:
        t = TARGETS[n]
        fl = t.get("flavor", "std")
        base = COMMON + FLAVORS[fl] + ["-I" + i for i in INC] + t.get("flags", [])
        objs = []
        key = hashlib.sha1(" ".join(base).encode()).hexdigest()[:8]
        for s in sources(t["dirs"], set(t.get("exclude", []))):
            o = os.path.join(CACHE, "obj", fl + "-" + key, os.path.relpath(s, SRC) + ".o")
            if o not in seen:
                seen[o] = 1
                # big translation units first
                jobs.append((s, o, base))
            objs.append(o)
        hobjs = []
        for s in t["src"]:
            p = os.path.join(HERE, "harness", s)
            o = os.path.join(CACHE, "obj", fl + "-" + key + "-h", s + ".o")
            hb = ["-std=gnu++14"] + base + ["-I" + os.path.join(HERE, "harness")] + t.get("hflags", [])
            if (o, tuple(hb)) not in seen:
                seen[(o, tuple(hb))] = 1
                jobs.append((p, o, hb))
            hobjs.append(o)
        links.append((n, fl, hobjs, objs, t))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    bad = False
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        for src, rc, out in ex.map(compile_one, jobs):
            if rc:
                bad = True
                sys.stderr.write("BUILD FAILED: %s\n%s\n" % (src, out[-4000:]))
    if bad:
        return None
    def link(l):
        n, fl, hobjs, objs, t = l
        # objects go in an archive so unused modules are dropped
        ar = os.path.join(CACHE, "bin", n + ".a")
        if os.path.exists(ar):
            os.unlink(ar)
        r = subprocess.run(["ar", "crsT", ar] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = os.path.join(CACHE, "bin", n)
        cmd = ["g++", "-fuse-ld=gold", "-pthread", "-o", out] + hobjs + t.get("ldflags", []) + ["-Wl,--start-group", ar, "-Wl,--end-group"] + LINKX[fl] + LIBS
        r2 = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return n, r.returncode or r2.returncode, r.stdout + r2.stdout, out
    res = {}
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for n, rc, out, path in ex.map(link, links):
            if rc:
                sys.stderr.write("LINK FAILED: %s\n%s\n" % (n, out[-4000:]))
                return None
            res[n] = path
    return res

if __name__ == "__main__":
    names = sys.argv[1:]
    if names == ["--all"]:
        names = list(TARGETS)
    r = build(names)
    if r is None:
        sys.exit(2)
    for n in names:
        print(r[n])
