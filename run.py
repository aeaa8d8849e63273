#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [extra args]: build the check of a property from /repo's current
working tree (objects are keyed by a hash of every input, so a stale object is never used) and run it."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LEARNTA_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_LOG_DYN_LINK=1",
         "-I" + REPO + "/include", "-I" + REPO + "/examples", "-I/usr/include/eigen3", "-I" + VERIF + "/src"]
LIBSRC = ["intersection", "ta2za", "timed_automaton", "observation_table"]

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def repo_files():
    r = []
    for d in ("include", "src", "examples"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs if f.endswith((".hh", ".cc", ".h", ".hpp", ".cpp"))]
    return r

def build(props):
    files = repo_files()
    rhash = digest(files, " ".join(FLAGS))
    vfiles = glob.glob(VERIF + "/src/*.hh")
    out = {}
    jobs = []
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    libdir = os.path.join(bdir, "lib-" + rhash)
    need_lib = any(CHECKS[p]["lib"] for p in props)
    libobjs = [os.path.join(libdir, s + ".o") for s in LIBSRC]
    # drop objects of other source states, they can never be reused safely
    for d in glob.glob(bdir + "/lib-*") + glob.glob(bdir + "/bin-*"):
        if not d.endswith(rhash):
            shutil.rmtree(d, ignore_errors=True)
    def cc(cmd, dst):
        tmp = dst + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:])
        os.replace(tmp, dst)
        return None
    if need_lib:
        os.makedirs(libdir, exist_ok=True)
        srcs = {os.path.basename(p)[:-3]: p for p in glob.glob(REPO + "/src/*.cc")}
        libobjs = [os.path.join(libdir, s + ".o") for s in sorted(srcs)]
        for o, s in zip(libobjs, sorted(srcs)):
            if not os.path.exists(o):
                jobs.append(([CXX] + FLAGS + ["-c", srcs[s]], o))
    bind = os.path.join(bdir, "bin-" + rhash)
    os.makedirs(bind, exist_ok=True)
    links = {}
    for p in props:
        src = os.path.join(VERIF, "src", CHECKS[p]["src"])
        h = digest(vfiles + [src])
        exe = os.path.join(bind, os.path.basename(src)[:-3] + "-" + h)
        obj = exe + ".o"
        out[p] = exe
        if not os.path.exists(exe) and exe not in links:
            jobs.append(([CXX] + FLAGS + ["-c", src], obj))
            links[exe] = [CXX, obj] + (libobjs if CHECKS[p]["lib"] else []) + ["-lboost_log", "-lboost_thread", "-lboost_system", "-lpthread"]
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(lambda j: cc(*j), jobs):
            if e:
                print(e, file=sys.stderr); sys.exit(2)
    for exe, cmd in links.items():
        e = cc(cmd, exe)
        if e:
            print(e, file=sys.stderr); sys.exit(2)
    if (jobs or links) and digest(repo_files(), " ".join(FLAGS)) != rhash:   # the tree changed while it was compiled
        shutil.rmtree(bind, ignore_errors=True); shutil.rmtree(libdir, ignore_errors=True)
        return build(props)
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        build(args[1:] or list(CHECKS)); return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = args[1:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest[0]; rest = rest[1:]
    seed = os.environ.get("VERIF_SEED", "1")
    exe = build([prop])[prop]
    budget = "600" if tier == "quick" else "7200"
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", seed, "--verif", VERIF]
    if "--budget" not in rest:
        cmd += ["--budget", budget]
    sys.stdout.flush()
    return subprocess.run(cmd + rest).returncode

if __name__ == "__main__":
    sys.exit(main())
