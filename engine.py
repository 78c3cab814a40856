"""Runs the CBMC jobs of one property.

A job compiles the real /repo/src files it names together with a harness of
/verif/cbmc/h, gives the functions it does not look into their contracts
(stubs that check the precondition and assume the postcondition), cuts the
loops it names at invariants, and lets CBMC decide every obligation.
"""
import json, os, re, subprocess, sys, threading, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
CB = os.path.join(HERE, "cbmc")
sys.path.insert(0, CB)
import loopcut

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
INC = ["-I" + SRC, "-I" + CB]
STUBS = ["ghost.c", "libc.c", "spec.c"]
MEM_CHECKS = []


class Job:
    """name; props: the properties it serves; src: the real files; harness: file in cbmc/h; defs;
    remove: real functions replaced by contract stubs; stubs: further stub files;
    cut: None or (file, select(Loop), candidates(type, name, Loop), extra header);
    unwind, unwindset: [(function, nth loop of goto program or None, bound)];
    need: expressions; a surviving candidate of some loop has to match each, or the invariants do not fit the code;
    first: after a failure, seconds for a second run that tells first divergences from what follows from them;
    fallback: jobs that decide instead when this one's invariants do not fit the code"""
    def __init__(self, name, src, harness, defs=(), remove=(), stubs=(), cut=None, unwind=130, unwindset=(), fallback=(), args=(),
                 timeout=600, bounded=None, functions=(), pre_entry="harness", kind="contract", reach=True, weight=1, replay=None, mem=2000, bound=None, need=(), first=0):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Result:
    def __init__(self, job):
        self.job = job
        self.ok = False
        self.props = []        # (name, line, desc, status)
        self.error = None
        self.solver = self.wall = 0.0
        self.vccs = 0
        self.dropped = []
        self.missing = []
        self.unexpected = []
        self.cmd = self.gb = None
        self.trace = None
        self.rounds = 0

    @property
    def failed(self):
        return [p for p in self.props if p[3] == "FAILURE" and not p[2].startswith("REACH")]


def sh(cmd, timeout, mem_mb=None, cwd=None):
    pre = "ulimit -v %d; " % (mem_mb * 1024) if mem_mb else ""
    p = subprocess.Popen(["/bin/bash", "-c", pre + 'exec "$@"', "x"] + [str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=cwd, start_new_session=True)
    RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("latin1")
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        return -999, ""
    finally:
        RUNNING.discard(p)


RUNNING = set()


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


class Work:
    """compiles each file once per set of options"""
    def __init__(self, d):
        self.d = d
        self.lock = threading.Lock()
        self.done = {}

    def compile(self, path, defs, tag):
        key = (path, tuple(defs), tag)
        with self.lock:
            ev = self.done.get(key)
            if ev is None:
                ev = self.done[key] = [threading.Event(), None, None]
                mine = True
            else:
                mine = False
        if not mine:
            ev[0].wait()
            return ev[1], ev[2]
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
        out = os.path.join(self.d, os.path.basename(path) + "." + h + ".gb")
        rc, txt = sh(["goto-cc", "-std=gnu11", "-D_GNU_SOURCE", "-D__NO_CTYPE"] + list(defs) + INC +
                     ["-include", os.path.join(CB, "contracts.h"), "-c", path, "-o", out], 120)
        ev[1], ev[2] = (out if rc == 0 else None), txt
        ev[0].set()
        return ev[1], ev[2]


PROP_RE = re.compile(r"^\[([^\]]+)\] (?:file (\S+) )?line (\d+) (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def parse(out):
    props, solver, vccs = [], 0.0, 0
    fn = ""
    for l in out.split("\n"):
        m = PROP_RE.match(l)
        if m:
            props.append((m.group(1), int(m.group(3)), m.group(4), m.group(5)))
            continue
        m = re.match(r"^\[([^\]]+)\] (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
        if m:
            props.append((m.group(1), 0, m.group(2), m.group(3)))
        elif l.startswith("Runtime decision procedure: "):
            solver += float(l.split(": ")[1].rstrip("s"))
        elif l.startswith("Generated "):
            vccs = int(l.split()[1])
    return props, solver, vccs


def loop_table(gb):
    """function -> its loop identifiers, in order"""
    rc, out = sh(["cbmc", gb, "--show-loops"], 120)
    t = {}
    for m in re.finditer(r"^Loop (\S+?)\.(\d+):", out, re.M):
        t.setdefault(m.group(1), []).append(int(m.group(2)))
    return t


def run(job, work, hints, deadline=None):
    r = Result(job)
    t0 = time.time()
    try:
        _run(job, work, hints, r, deadline)
    except Exception as e:      # an extraction or compiler failure: the caller falls back
        r.error = "%s: %s" % (type(e).__name__, str(e)[:500])
    r.wall = time.time() - t0
    return r


def _run(job, work, hints, r, deadline):
    d = os.path.join(work.d, job.name)
    os.makedirs(d, exist_ok=True)
    cutsrc, loops, prim = None, [], [None]
    if job.cut:
        cfile, select, cands, hdr = job.cut
        text, loops = loopcut.instrument(os.path.join(SRC, cfile), [SRC], select, cands)
        cutsrc = os.path.join(d, cfile)
        with open(cutsrc, "wb") as f:
            f.write(text)
        if not loops:
            raise RuntimeError("no loop to cut was found")
    off = set()
    for L in loops:
        for j, c in enumerate(L.cands):
            if "%s: %s" % (L.fn, c) in hints.get(job.name.split("/")[0], ()):
                off.add((L.id, j))
    def build(n, extra=()):
        objs = []
        tag = ""
        defs = list(job.defs) + list(extra)
        if loops:
            h = '#include "vpcut.h"\n' + job.cut[3] + "\n"
            for i, L in enumerate(loops):
                h += "#define VPID_%s %d\n#define VPMASK_%s %d\n" % (L.id, i, L.id, L.mask)
                for j, c in enumerate(L.cands):
                    h += "#define VPON_%s_%d %d\n" % (L.id, j, (L.id, j) not in off)
            hp = os.path.join(d, "vp_loops%d.h" % n)
            with open(hp, "w") as f:
                f.write(h)
            tag = hp
        for f in job.src:
            p = cutsrc if job.cut and f == job.cut[0] else os.path.join(SRC, f)
            ds = defs + (["-I" + SRC, "-include", tag] if p == cutsrc else [])
            o, txt = work.compile(p, ds, tag if p == cutsrc else "")
            if not o:
                raise RuntimeError("goto-cc %s: %s" % (f, txt[-400:]))
            if job.remove:
                o2 = os.path.join(d, os.path.basename(f) + ".rm.gb")
                cmd = ["goto-instrument"]
                for x in job.remove:
                    cmd += ["--remove-function-body", x]
                rc, txt = sh(cmd + [o, o2], 120)
                if rc:
                    raise RuntimeError("goto-instrument: " + txt[-400:])
                o = o2
            objs.append(o)
        for f in STUBS + list(job.stubs) + ["h/" + job.harness]:
            o, txt = work.compile(os.path.join(CB, f), defs + (["-include", os.path.join(CB, "vpcut.h")] if loops else []), "")
            if not o:
                raise RuntimeError("goto-cc %s: %s" % (f, txt[-400:]))
            objs.append(o)
        gb = os.path.join(d, "all%d.gb" % n)
        rc, txt = sh(["goto-cc", "--function", job.pre_entry] + objs + ["-o", gb], 120)
        if rc:
            raise RuntimeError("link: " + txt[-400:])
        return gb

    while True:
        r.rounds += 1
        gb = build(r.rounds)
        cmd = ["cbmc", gb, "--unwind", job.unwind, "--verbosity", "8", "--max-field-sensitivity-array-size", "64", "--slice-formula"] + list(job.args)
        uw = list(job.unwindset)
        if job.bound:
            # every loop of the file that does more than assign its own variables
            fns = set()
            loopcut.instrument(os.path.join(SRC, job.bound[0]), [SRC], lambda L: L.pure or fns.add(L.fn), lambda *a: [])
            uw += [("gaia_main" if f == "main" else f, None, job.bound[1]) for f in fns]
        if uw:
            t = loop_table(gb)
            us = []
            for fn, n, b in uw:
                for k, i in enumerate(t.get(fn, [])):
                    if n is None or n == k:
                        us.append("%s.%d:%d" % (fn, i, b))
                if fn in ("memcpy", "strlen", "strcmp", "memcmp", "strchr", "strncmp") and fn not in t:
                    us.append("%s.0:%d" % (fn, b))
            if us:
                cmd += ["--unwindset", ",".join(us)]
        r.cmd = " ".join(str(c) for c in cmd)
        tmo = job.timeout if deadline is None else max(5, min(job.timeout, deadline - time.time()))
        rc, out = sh(cmd, tmo, mem_mb=job.mem * 4)
        with open(os.path.join(d, "log%d" % r.rounds), "w") as f:
            f.write(out)
        if rc == -999:
            raise RuntimeError("timeout after %d s" % tmo)
        r.props, s, r.vccs = parse(out)
        r.solver += s
        r.gb = gb
        if rc not in (0, 10) or not r.props or "VERIFICATION" not in out:
            raise RuntimeError("cbmc rc %d: %s" % (rc, out[-300:]))
        # what lies behind a failed memory access is left undecided
        st = {p[3] for p in r.props}
        if st - {"SUCCESS", "FAILURE", "UNKNOWN"} or "UNKNOWN" in st and "FAILURE" not in st:
            raise RuntimeError("cbmc left obligations undecided: " + out[-300:])
        drop = set()
        for n, line, desc, st in r.props:
            m = re.match(r"candidate (\S+?) (\d+):", desc)
            if m and st == "FAILURE":
                drop.add((m.group(1), int(m.group(2))))
        if not drop:
            break
        if r.rounds >= 8:
            raise RuntimeError("no invariant found after %d rounds" % r.rounds)
        off |= drop
        for L in loops:
            for j, c in enumerate(L.cands):
                if (L.id, j) in drop:
                    r.dropped.append("%s: %s" % (L.fn, c))
    if job.first and r.failed and not (deadline and deadline - time.time() < 20):
        r.rounds += 1
        gb = build(r.rounds, ["-DFIRST"])
        c2 = [gb if x == r.gb else x for x in cmd]
        for p in r.failed:
            c2 += ["--property", p[0]]
        rc, out = sh(c2, job.first if deadline is None else max(5, min(job.first, deadline - time.time())), mem_mb=job.mem * 4)
        with open(os.path.join(d, "log%d" % r.rounds), "w") as f:
            f.write(out)
        if rc in (0, 10) and "VERIFICATION" in out:
            props, s, _ = parse(out)
            r.solver += s
            st = {p[0]: p[3] for p in props}
            r.later = [p for p in r.props if p[3] == "FAILURE" and st.get(p[0]) == "SUCCESS"]
            r.props = [p if p not in r.later else (p[0], p[1], p[2], "LATER") for p in r.props]
        r.firstrc = rc
    alive = ["%s: %s" % (L.fn, c) for L in loops for j, c in enumerate(L.cands) if (L.id, j) not in off]
    if job.need:
        # variables the loop changes and of which nothing is known at its head
        for L in loops:
            for n, t in L.mod:
                if not any((L.id, j) not in off and re.search(r"\b%s\b" % re.escape(n), c) for j, c in enumerate(L.cands)):
                    x = "%s: %s is unknown" % (L.fn, n)
                    if x not in hints.get(job.name.split("/")[0], ()):
                        r.missing.append(x)
    r.missing += [x for x in job.need if not any(re.search(x, a) for a in alive)]
    reach = [p for p in r.props if p[2].startswith("REACH")]
    if job.reach and (not reach or any(p[3] == "SUCCESS" for p in reach)):
        r.error = "vacuous: an end of the harness is unreachable"
        return
    r.ok = not r.failed


def pool(jobs, work, hints, ncpu, on_done, deadline=None):
    """runs the jobs, heaviest first, with on_done(result) -> more jobs"""
    todo = sorted(jobs, key=lambda j: -j.weight)
    lock = threading.Lock()
    active = [0]
    cv = threading.Condition(lock)

    def worker():
        while True:
            with cv:
                while not todo and active[0]:
                    cv.wait()
                if not todo:
                    cv.notify_all()
                    return
                j = todo.pop(0)
                active[0] += 1
            res = run(j, work, hints, deadline)
            with cv:
                more = on_done(res) or []
                todo.extend(more)
                active[0] -= 1
                cv.notify_all()
    ts = [threading.Thread(target=worker, daemon=True) for _ in range(ncpu)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
