"""Builds /repo's library sources plus a harness, in a chosen instrumentation variant.

Everything is compiled from /repo's working tree; nothing under /repo is written.
Objects live in a scratch directory given by the caller (or a cache keyed by the
content of every file the compiler could read, so that an unchanged tree is not
compiled twice while developing)."""
import concurrent.futures as cf
import glob, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)

COMMON = ["-std=gnu++20", "-g1", "-w", "-fopenmp"]
VARIANTS = {
    # asserts on, libstdc++ assertions on, address + undefined behaviour
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    # the flags the project ships with
    "rel": ["-O3", "-DNDEBUG", "-ffast-math"],
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # the same with the progress log
    "loud": ["-O3", "-DNDEBUG", "-ffast-math", "-DSNN_VERBOSE=complete"],
    "plain": ["-O1"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "rel": ["-ffast-math"], "loud": ["-ffast-math"], "plain": []}


def sources():
    src = os.path.join(REPO, "src")
    lib, ext = [], []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(root, src)
        for f in sorted(files):
            if not f.endswith(".cpp"):
                continue
            p = os.path.join(root, f)
            if rel.startswith("external_library"):
                ext.append(p)
            else:
                lib.append(p)
    # only the archive flavours the library can use (narrow text archives); the
    # xml, wide and polymorphic ones are dead weight
    def wanted(p):
        b = os.path.basename(p)
        if "boost" not in p:
            return True
        return not any(k in b for k in ("xml", "polymorphic", "_w", "utf8", "binary")) and not b.startswith("w")
    ext = [p for p in ext if wanted(p)]
    return lib, ext


def includes():
    inc = [os.path.join(REPO, "include")]
    for root, dirs, _ in os.walk(os.path.join(REPO, "include", "snn")):
        dirs.sort()
        inc.append(root)
    e = os.path.join(REPO, "src", "external_library")
    for d in sorted(os.listdir(e)):
        if os.path.isdir(os.path.join(e, d)):
            inc.append(os.path.join(e, d))
    return ["-I" + i for i in inc]


def tree_hash(extra=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(REPO, "src")]
    for r in roots:
        for root, dirs, files in os.walk(r):
            dirs.sort()
            if "external_library" in root and "boost" in root:
                # listed by name and size only: it is large
                for f in sorted(files):
                    p = os.path.join(root, f)
                    h.update(f"{p}:{os.path.getsize(p)}".encode())
                continue
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for x in extra:
        h.update(str(x).encode())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _cc(args):
    p = subprocess.run(args, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(args[-3:]) + "\n" + p.stderr[-4000:])


def _prune(keep):
    try:
        ds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
        for d in ds[:-10]:
            if d not in keep:
                shutil.rmtree(d, ignore_errors=True)
    except FileNotFoundError:
        pass


def build(jobs_wanted):
    """jobs_wanted: list of (harness name, variant). Returns {(name, variant): exe}."""
    t0 = time.time()
    inc = includes() + ["-I" + os.path.join(VERIF, "harness")]
    lib, ext = sources()
    out, tasks, links = {}, [], []
    variants = sorted({v for _, v in jobs_wanted})
    libs, keep = {}, []
    os.makedirs(CACHE, exist_ok=True)
    th = tree_hash()
    for v in variants:
        d = os.path.join(CACHE, f"lib-{v}-" + hashlib.sha256((th + repr(VARIANTS[v]) + repr(COMMON)).encode()).hexdigest()[:16])
        keep.append(d)
        a = os.path.join(d, "libsnn.a")
        libs[v] = a
        if os.path.exists(a):
            os.utime(d)
            continue
        os.makedirs(d, exist_ok=True)
        objs = []
        for i, s in enumerate(lib + ext):
            o = os.path.join(d, f"{i}.o")
            objs.append(o)
            flags = VARIANTS[v]
            if s in ext and "boost" in s:
                flags = [f for f in flags if f != "-O3"] + (["-O1"] if v in ("rel", "loud") else [])
            tasks.append((os.path.getsize(s) + (10**6 if "SimpleLayer" in s or "StraightforwardNeuralNetwork" in s else 0),
                          ["g++", *COMMON, *flags, *inc, "-c", s, "-o", o]))
        links.append((a, objs, d))
    harness_objs = []
    hh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))):
        hh.update(open(f, "rb").read())
    for name, v in jobs_wanted:
        s = os.path.join(VERIF, "harness", name + ".cpp")
        key = hashlib.sha256((th + hh.hexdigest() + open(s).read() + repr(VARIANTS[v])).encode()).hexdigest()[:16]
        d = os.path.join(CACHE, f"exe-{name}-{v}-{key}")
        keep.append(d)
        exe = os.path.join(d, name)
        out[(name, v)] = exe
        if os.path.exists(exe):
            os.utime(d)
            continue
        os.makedirs(d, exist_ok=True)
        o = exe + ".o"
        # the oracles need IEEE semantics: no -ffast-math in the harness itself
        flags = [f if f != "-O3" else "-O1" for f in VARIANTS[v] if f != "-ffast-math"]
        tasks.append((10**7, ["g++", *COMMON, *flags, *inc, "-c", s, "-o", o]))
        harness_objs.append((v, o, exe))
    tasks.sort(key=lambda t: -t[0])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in [ex.submit(_cc, t[1]) for t in tasks]:
            r.result()
    for a, objs, d in links:
        subprocess.run(["ar", "rcs", a + ".tmp", *objs], check=True)
        os.rename(a + ".tmp", a)
        for o in objs:
            os.unlink(o)
    def link(t):
        v, o, exe = t
        # the whole archive: boost's serialization registry relies on static initialisers
        # a harness of static objects comes first, so that they are initialised before those of the library
        first, last = ([o], []) if os.path.basename(exe) == "early" else ([], [o])
        _cc(["g++", "-fopenmp", *LINK[v], *first, "-Wl,--whole-archive", libs[v], "-Wl,--no-whole-archive", *last, "-lpthread", "-ldl", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
        os.unlink(o)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, harness_objs))
    _prune(keep)
    return out, time.time() - t0


if __name__ == "__main__":
    pairs = [tuple(a.split(":")) for a in sys.argv[1:]]
    print(build(pairs))
