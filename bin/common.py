"""Paths and the build of the simulator from /repo's current working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
FLAGS = ["-std=gnu++17", "-g1", "-O1", "-fno-inline", "-fno-strict-aliasing",
         "-fno-delete-null-pointer-checks", "-Wall", "-Wno-mismatched-tags"]
# Only functions of namespace ttl are instrumented: each basic block, load and
# store in them is a point where the simulator may switch tasks.
INSTR = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores",
         "-fsanitize-coverage-allowlist=" + os.path.join(SIM, "allow.txt")]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "aligned_alloc",
                                                  "memcpy", "memmove", "memset", "memcmp"))]
PLAIN = {"core.cpp", "main.cpp"}
# What a part of the simulator can do without if it does not compile with it:
# neither is asked for by the repository's own build.
LESS = {"old_": ("-DWITHOUT_OLD", "the library does not compile as C++98, its classes of that kind are left out"),
        "jobs": ("-DARRAYS_ONLY", "an algorithm does not compile for ranges in lists, they are run on arrays only")}


class BuildError(Exception):
    pass


def _files(top):
    for d, dirs, names in os.walk(top):
        dirs.sort()
        for n in sorted(names):
            yield os.path.join(d, n)


def build():
    """Compiles the simulator with /repo/ttl as it is now; returns the program."""
    h = hashlib.sha256()
    h.update(repr((FLAGS, INSTR, WRAP, REPO)).encode())
    for top in (os.path.join(REPO, "ttl"), SIM):
        for f in _files(top):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    key = h.hexdigest()[:20]
    dest = os.path.join(BUILD, key)
    prog = os.path.join(dest, "simttl")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(prog):
            return prog
        for old in os.listdir(BUILD):  # earlier trees are not needed any more
            p = os.path.join(BUILD, old)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        srcs = sorted(f for f in os.listdir(SIM) if f.endswith(".cpp"))

        def one(src):
            obj = os.path.join(tmp, src[:-4] + ".o")
            cmd = [CXX] + FLAGS + ["-I" + REPO, "-I" + SIM] + (["-O2", "-finline-functions"] if src in PLAIN else INSTR) + \
                  ["-c", os.path.join(SIM, src), "-o", obj]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            less = LESS.get(src[:4])
            if r.returncode and less:
                print("%s: %s:\n%s" % (src, less[1], r.stdout[:1000]), file=sys.stderr)
                r = subprocess.run(cmd + [less[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                with open(os.path.join(tmp, "notes"), "a") as f:
                    f.write("%s: %s\n" % (src, less[1]))
            return obj, r.returncode, r.stdout

        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(one, srcs))
        bad = [r for r in res if r[1]]
        if bad:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("\n".join(r[2][-4000:] for r in bad))
        r = subprocess.run([CXX, "-rdynamic"] + WRAP + [r[0] for r in res] + ["-o", os.path.join(tmp, "simttl"), "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(r.stdout[-4000:])
        os.rename(tmp, dest)
    return prog


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
