"""Builds the simulator from /repo's current working tree and /verif/sim.

Nothing is written into /repo.  Objects are kept in /verif/build under the hash of everything that goes into
them (compiler, flags, the source and every header of /repo and /verif/sim), so a changed tree never meets a stale object.
"""
import hashlib, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("SIM_REPO", "/repo"))
BUILD = VERIF / "build"
JOBS = max(2, os.cpu_count() or 2)

SANITIZE = "-fsanitize=address,bounds,float-cast-overflow,return -fno-sanitize-recover=bounds,float-cast-overflow,return"
COMMON = ["-std=gnu++20", "-w", "-DFMT_CONSTEVAL=", "-Wno-attributes", "-fvisibility=hidden", "-ftrivial-auto-var-init=pattern"]
FLAVOURS = {
    "rel": [("g++", ["-O1"])],
    # clang first; g++ knows the same sanitizers but compiles them more slowly
    "asan": [("clang++", ["-O1", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"] + SANITIZE.split()),
             ("g++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"] + SANITIZE.split())],
}
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup"))]
# the slow ones first, so that they do not come last on one core
SLOW = ["exec.cpp", "Narsese.cpp", "Term.cpp", "NarseseParser.cpp", "Compound.cpp", "Statement.cpp", "Interpreter.cpp", "Sentence.cpp", "Task.cpp"]


class BuildError(Exception):
    pass


def sh(cmd):
    return subprocess.run(cmd, capture_output=True, text=True, shell=True).stdout.split()


def sources():
    own = sorted((VERIF / "sim").glob("*.cpp"))
    repo = []
    for d in ("Narsese/src", "Narsese/Parser", "Interpreter/src", "utils"):
        repo += sorted((REPO / d).rglob("*.cpp"))
    repo += [REPO / f for f in ("Config.cpp", "Global.cpp", "Narsese.cpp") if (REPO / f).exists()]
    repo = [f for f in repo if f.stat().st_size]
    rank = {n: i for i, n in enumerate(SLOW)}
    return sorted(own + repo, key=lambda f: (rank.get(f.name, 99), -f.stat().st_size, str(f)))


def header_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO, VERIF / "sim"):
        for e in ("*.h", "*.hpp", "*.inl", "*.hh", "*.ipp"):
            files += [f for f in root.rglob(e) if "/_build/" not in str(f) and "/.git/" not in str(f)]
    # any other file that a source of the repository includes by name
    for f in sorted(set(files)):
        h.update(str(f).encode() + b"\0" + hashlib.sha256(f.read_bytes()).digest())
    return h.hexdigest()


def build(flavour, log=lambda s: None):
    BUILD.mkdir(exist_ok=True)
    last = None
    for cxx, flags in FLAVOURS[flavour]:
        try:
            return build_with(cxx, flags, flavour, log)
        except BuildError as e:
            last = e
            log(f"build of {flavour} with {cxx} failed")
    raise last


def build_with(cxx, flags, flavour, log):
    t0 = time.time()
    inc = [f"-I{REPO}/{d}".rstrip("/") for d in ("", "Narsese", "Narsese/Parser", "Interpreter", "utils", "pybind11/include")]
    inc += sh("python3-config --includes")
    libs = ["-lfmt"] + sh("python3-config --embed --ldflags")
    version = subprocess.run([cxx, "--version"], capture_output=True, text=True).stdout
    base = [cxx] + COMMON + flags + inc
    headers = header_hash()
    objdir = BUILD / "obj"
    objdir.mkdir(exist_ok=True)

    def one(src):
        key = hashlib.sha256("\0".join([version, *base, str(src), headers]).encode() + b"\0" + src.read_bytes()).hexdigest()[:32]
        obj = objdir / f"{key}.o"
        if obj.exists():
            os.utime(obj)
            return obj, False
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=objdir)
        os.close(fd)
        r = subprocess.run(base + ["-c", str(src), "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            os.unlink(tmp)
            raise BuildError(f"{src}:\n{r.stderr[-3000:]}")
        os.replace(tmp, obj)
        return obj, True

    with ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(one, sources()))
    objs = [str(o) for o, _ in done]
    key = hashlib.sha256("\0".join(sorted(objs) + [version] + base).encode()).hexdigest()[:24]
    out = BUILD / f"sim_{flavour}_{key}"
    if not out.exists():
        fd, tmp = tempfile.mkstemp(dir=BUILD)
        os.close(fd)
        r = subprocess.run([cxx] + flags + ["-o", tmp] + objs + libs + WRAP, capture_output=True, text=True)
        if r.returncode:
            os.unlink(tmp)
            raise BuildError("link:\n" + r.stderr[-3000:])
        os.chmod(tmp, 0o755)
        os.replace(tmp, out)
    os.utime(out)
    prune()
    log(f"{flavour}: {sum(n for _, n in done)} of {len(objs)} objects compiled, {time.time() - t0:.1f} s")
    return str(out), cxx


def prune(keep_obj=500, keep_sim=6):
    for d, pat, keep in ((BUILD / "obj", "*.o", keep_obj), (BUILD, "sim_*", keep_sim)):
        try:
            files = sorted((f for f in d.glob(pat)), key=lambda f: -f.stat().st_mtime)
            for f in files[keep:]:
                if time.time() - f.stat().st_mtime > 3600:
                    f.unlink()
        except OSError:
            pass


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["rel", "asan"]:
        try:
            print(build(fl, lambda s: print(s, flush=True)))
        except BuildError as e:
            print(e)
            sys.exit(2)
