"""Builds the harness drivers from /repo's current working tree.

Every translation unit (TFHEpp's src/*.cpp, the third-party transform and RNG
libraries it links, and the drivers in /verif/harness) is compiled separately.
Objects are cached under /verif/build/obj by the hash of the *preprocessed*
source plus flags, so a comment-only edit costs a preprocessing pass and any
other edit recompiles exactly the units it reaches.  Nothing is written in
/repo.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OBJ = os.path.join(VERIF, "build", "obj")
CXX = "g++"
# the flags /opt/vp/build.sh gives the library, minus LTO and debug information
ARCH = ["-march=x86-64-v3", "-maes", "-mpclmul"]
FLAGS = ["-std=c++20", "-O3", "-funroll-loops", "-fopenmp", "-DUSE_RANDEN", "-w"] + ARCH
# what the code leaves unset is never zero, or the value of an earlier call, by chance
FLAGS += ["-ftrivial-auto-var-init=pattern"]
INC = ["-I", f"{REPO}/include", "-I", f"{REPO}/thirdparties/spqlios", "-I", f"{REPO}/thirdparties/randen", "-I", f"{REPO}/thirdparties/fftw"]
HINC = ["-I", f"{VERIF}/harness"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, **kw)


def compile_unit(src, flags):
    """Returns the object file for src."""
    if src.endswith(".s"):
        key_data = open(src, "rb").read()
        cmd = ["gcc", "-c"]
    else:
        r = run([CXX, "-E", "-P"] + flags + INC + HINC + [src])
        if r.returncode:
            raise BuildError(f"preprocessing {src}:\n{r.stderr.decode(errors='replace')[:3000]}")
        key_data = r.stdout
        cmd = [CXX, "-c"] + flags + INC + HINC
    key = hashlib.sha256(key_data + "\0".join(flags + [os.path.basename(src)]).encode()).hexdigest()[:32]
    obj = os.path.join(OBJ, f"{os.path.basename(src)}.{key}.o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = f"{obj}.{os.getpid()}.tmp"
    r = run(cmd + [src, "-o", tmp])
    if r.returncode:
        raise BuildError(f"compiling {src}:\n{r.stderr.decode(errors='replace')[:6000]}")
    os.replace(tmp, obj)
    return obj


def lib_sources(extra=()):
    s = sorted(glob.glob(f"{REPO}/src/*.cpp"))
    s += [f"{REPO}/thirdparties/randen/randen.cc"]
    if "-DUSE_FFTW3" in extra:
        return s + [f"{REPO}/thirdparties/fftw/fft_processor_fftw.cpp"]
    s += [f"{REPO}/thirdparties/spqlios/{x}" for x in
          ("spqlios-fft-fma.s", "spqlios-ifft-fma.s", "fft_processor_spqlios.cpp", "spqlios-fft-impl.cpp")]
    return s


def build_all(jobs):
    """jobs: (name, extra flags) pairs, name of a harness/<name>.cpp.  Returns {job: path of the executable}."""
    os.makedirs(OBJ, exist_ok=True)
    rnd = f"{VERIF}/harness/rnd.cpp"
    base = FLAGS + os.environ.get("VERIF_FLAGS", "").split()
    lib = {tuple(x): lib_sources(x) + [rnd] for _, x in jobs}
    # the drivers take longest: start them first
    order = [(f"{VERIF}/harness/{d}.cpp", tuple(x)) for d, x in jobs]
    order += [(s, x) for x in lib for s in lib[x]]
    with open(os.path.join(OBJ, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            objs = dict(zip(order, ex.map(lambda u: compile_unit(u[0], base + list(u[1])), order)))
        out = {}
        for d, x in jobs:
            x = tuple(x)
            mine = [objs[(f"{VERIF}/harness/{d}.cpp", x)]] + [objs[(s, x)] for s in lib[x]]
            flags = base + list(x)
            key = hashlib.sha256("\0".join(mine + flags).encode()).hexdigest()[:24]
            exe = os.path.join(OBJ, f"{d}.{key}.exe")
            if not os.path.exists(exe):
                r = run([CXX] + flags + mine + (["-lfftw3"] if "-DUSE_FFTW3" in x else []) + ["-o", exe + ".tmp"])
                if r.returncode:
                    raise BuildError(f"linking {d}:\n{r.stderr.decode(errors='replace')[:6000]}")
                os.replace(exe + ".tmp", exe)
            else:
                os.utime(exe)
            out[(d, x)] = exe
        prune()
    return out


def build(drivers):
    """drivers: names of harness/<name>.cpp, default options.  Returns {name: path of the executable}."""
    return {d: e for (d, _), e in build_all([(d, ()) for d in drivers]).items()}


def prune(limit=1500 << 20):
    fs = sorted((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(f"{OBJ}/*") if os.path.isfile(f))
    total = sum(x[1] for x in fs)
    for _, size, f in fs:
        if total <= limit:
            break
        os.remove(f)
        total -= size


if __name__ == "__main__":
    t = time.time()
    try:
        if sys.argv[1:] == ["all"]:  # every driver of every property
            from plan import PLAN
            print(len(build_all(sorted({(x.get("driver", p["driver"]), tuple(x.get("flags", ()))) for p in PLAN.values() for x in p["sections"]}))), "executables")
        else:
            print(build(sys.argv[1:]))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(f"{time.time()-t:.1f}s")
