"""Searches an input on which the real gaia differs from the reference assembler."""
import multiprocessing, os, pickle, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import corpus, difftest

DIAG = {"diag-line", "diag-text", "diag-marker"}


def relevant(prop, kind):
    """the mismatches that contradict the property"""
    if prop == "C12":
        return kind in DIAG or kind == "silent"
    if prop == "C13":
        return kind in ("crash", "hang")
    if prop == "C11":
        return kind in ("rejected-valid", "accepted-invalid", "no-success-message", "success-on-failure", "silent", "no-output", "byte", "length")
    return kind not in DIAG


def build(repo, out, kind):
    """compiles the working tree; kind: plain, asan, msan"""
    src = sorted(os.path.join(repo, "src", f) for f in os.listdir(os.path.join(repo, "src")) if f.endswith(".c"))
    cc = {"plain": ["gcc", "-O2"], "asan": ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
          "msan": ["clang", "-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"],
          "fault": ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", os.path.join(HERE, "fault.c")] +
                   ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "strdup")]}[kind]
    r = subprocess.run(cc + ["-std=gnu11", "-w", "-I" + os.path.join(repo, "src")] + src + ["-o", out, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return out if r.returncode == 0 else None


def _work(a):
    prop, gaia, srcs = a
    w = tempfile.mkdtemp(prefix="vph")
    try:
        out = []
        for s in srcs:
            for g in gaia:
                m = difftest.compare(s, difftest.run(g, s, w))
                if m and relevant(prop, m[0]):
                    return len(srcs), (s, m, g)
        return len(srcs), None
    finally:
        shutil.rmtree(w, ignore_errors=True)


def batches(prop, gaia, it, n=100):
    b = []
    for s in it:
        b.append(s)
        if len(b) == n:
            yield prop, gaia, b
            b = []
    if b:
        yield prop, gaia, b


def hunt(prop, gaia, it, secs, nproc):
    """(cases run, None or (source, (kind, text), binary))"""
    end = time.time() + secs
    n = 0
    with multiprocessing.Pool(nproc) as pool:
        for k, bad in pool.imap(_work, limited(batches(prop, gaia, it), end)):
            n += k
            if bad:
                pool.terminate()
                return n, minimise(prop, bad)
    return n, None


def limited(it, end):
    for x in it:
        if time.time() > end:
            return
        yield x


def minimise(prop, bad):
    s, m, g = bad
    w = tempfile.mkdtemp(prefix="vpm")
    end = time.time() + 20
    try:
        lines = s.split(b"\n")
        step = max(1, len(lines) // 2)
        while step and time.time() < end:
            i = 0
            while i < len(lines) and time.time() < end:
                t = lines[:i] + lines[i + step:]
                m2 = difftest.compare(b"\n".join(t), difftest.run(g, b"\n".join(t), w))
                if t and m2 and m2[0] == m[0]:
                    lines, m = t, m2
                else:
                    i += step
            step //= 2
        return b"\n".join(lines), m, g
    finally:
        shutil.rmtree(w, ignore_errors=True)


def endless(prop, seed):
    """the property's corpus, then ever new variations of it"""
    yield from corpus.stream(prop, seed)
    k = seed
    while True:
        k += 7919
        yield from corpus.stream(prop, k)


def spawn(work, prop, gaia, mode, seed, secs, nproc, srcs=None):
    """hunt in a process of its own; mode: corpus, endless or list.  Returns a function that waits for the result"""
    f = tempfile.mktemp(dir=work)
    with open(f, "wb") as o:
        pickle.dump((prop, gaia, mode, seed, secs, nproc, srcs), o)
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), f], start_new_session=True)

    def wait(t=None):
        try:
            p.wait(t)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
        try:
            with open(f + ".out", "rb") as i:
                return pickle.load(i)
        except (OSError, EOFError):
            return 0, None
    return wait


if __name__ == "__main__":
    with open(sys.argv[1], "rb") as i:
        prop, gaia, mode, seed, secs, nproc, srcs = pickle.load(i)
    it = corpus.stream(prop, seed) if mode == "corpus" else endless(prop, seed) if mode == "endless" else iter(srcs)
    r = hunt(prop, gaia, it, secs, nproc)
    with open(sys.argv[1] + ".tmp", "wb") as o:
        pickle.dump(r, o)
    os.replace(sys.argv[1] + ".tmp", sys.argv[1] + ".out")
