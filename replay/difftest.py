"""Run the real gaia binary on a source file and compare with refasm."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refasm

ENV = dict(os.environ, LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=0")


def run(gaia, src, work, timeout=10, args=None, env=None):
    """returns (rc, stdout, output bytes or None); rc -999 = timeout"""
    a = os.path.join(work, "in.asm")
    o = os.path.join(work, "out.bin")
    with open(a, "wb") as f:
        f.write(src)
    if os.path.exists(o):
        os.unlink(o)
    try:
        p = subprocess.run([gaia] + (args or ["in.asm", "-o", "out.bin"]), cwd=work,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=env or ENV)
    except subprocess.TimeoutExpired:
        return -999, b"", None, b""
    out = None
    if os.path.exists(o):
        with open(o, "rb") as f:
            out = f.read()
    return p.returncode, p.stdout, out, p.stderr


def compare(src, got, aspects=None):
    """None if gaia's behaviour is as expected, else a (kind, text) mismatch"""
    rc, so, out, se = got
    if rc == -999:
        return ("hang", "did not terminate in time")
    if rc < 0 or rc == 99 or b"runtime error" in se or b"AddressSanitizer" in se:
        return ("crash", "crashed or undefined behaviour (rc %d): %s" % (rc, se[-600:].decode("latin1")))
    exp = refasm.assemble(src)
    if exp[0] == "ok":
        _, img, overlap, total, ns = exp
        if rc != 0:
            return ("rejected-valid", "a valid program was rejected: rc %d, %r" % (rc, so[-300:]))
        if b"Assembly successful" not in so:
            return ("no-success-message", "exit 0 without the success message: %r" % so[-300:])
        if out is None:
            return ("no-output", "no output file")
        size = max(img) + 1 if img else 0
        want = bytearray(size)
        for a, b in img.items():
            want[a] = b
        if len(out) != size and not overlap:
            return ("length", "output has %d bytes, expected %d" % (len(out), size))
        for a in range(min(size, len(out))):
            if out[a] != want[a] and a not in overlap:
                return ("byte", "byte at $%04x is $%02x, expected $%02x" % (a, out[a], want[a]))
        if b"%d (0x%04x) bytes assembled" % (total, total) not in so:
            return ("totals", "expected %d bytes reported: %r" % (total, so))
        if b"%d symbols" % ns not in so:
            return ("symbols", "expected %d symbols reported: %r" % (ns, so))
        return None
    e = exp[1]
    if rc == 0:
        return ("accepted-invalid", "an invalid program (%s, line %d) was assembled" % (e.kind, e.line))
    if b"Assembly successful" in so:
        return ("success-on-failure", "success message with rc %d" % rc)
    if not so.strip():
        return ("silent", "rejected (%s, line %d) without a diagnostic" % (e.kind, e.line))
    pre, shown, marker = refasm.expected_diag(e, "in.asm")
    lines = so.split(b"\n")
    i = next((k for k, l in enumerate(lines) if l.startswith(b"in.asm:")), None)
    if i is None or not lines[i].startswith(pre):
        return ("diag-line", "diagnostic should start with %r: %r" % (pre, so[-300:]))
    if b"\n".join(lines[i + 1:]).startswith(shown + b"\n") is False:
        return ("diag-text", "diagnostic should show %r: %r" % (shown, so[-300:]))
    mk = b"\n".join(lines[i + 1:])[len(shown) + 1:]
    mk = mk.split(b"\n")[0]
    if marker is None:
        if mk.strip():
            return ("diag-marker", "unexpected marker: %r" % so[-300:])
    elif not (mk.startswith(marker) and not mk[:len(marker) - 1].strip(b" ")):
        return ("diag-marker", "marker should be at column %d: %r" % (len(marker) - 1, so[-300:]))
    return None
