"""Source-file generators used to look for a concrete failing input."""
import random
import refasm
M = sorted(refasm.OPC)
FORMS = ["none", "A", "#", "", ",X", ",Y", "(,X)", "(),Y", "()"]
VALS = [0, 1, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x1234, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF]


def wrap(form, v):
    return {"none": "", "A": "A", "#": "#" + v, "": v, ",X": v + ",X", ",Y": v + ",Y",
            "(,X)": "(" + v + ",X)", "(),Y": "(" + v + "),Y", "()": "(" + v + ")"}[form]


def enc(s):
    return s.encode("latin1")


def modes(r):
    cases = [(m, f, v, k) for m in M for f in FORMS for v in VALS for k in (0, 1, 2)]
    r.shuffle(cases)
    # every mnemonic and form first, with few values
    first = [(m, f, v, 0) for m in M for f in FORMS for v in (0x12, 0x1234)]
    r.shuffle(first)
    for m, f, v, k in first + cases:
        if f in ("none", "A"):
            if k:
                continue
        if k == 0:
            yield enc("\t%s %s\n" % (m, wrap(f, "$%X" % v)))
        elif k == 1:
            yield enc("LAB = $%X\n\t%s %s\n" % (v, m, wrap(f, "LAB")))
        else:
            yield enc("\t.ORG $%X\nLAB:\n\t.ORG $200\n\t%s %s\n" % (v, m, wrap(f, "LAB")))


def fwdmodes(r):
    c = [(m, f) for m in M for f in FORMS[2:]]
    r.shuffle(c)
    for m, f in c:
        yield enc(" %s %s\nFWD:\n NOP\n" % (m, wrap(f, "FWD")))
        yield enc(" NOP\n %s %s\n .ORG $1234\nFWD: NOP\n" % (m, wrap(f, "FWD")))
        yield enc(" %s %s\nFWD = $12\n" % (m, wrap(f, "FWD")))


def words(r):
    A = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for m in M:
        for t in (m.lower(), m.capitalize(), m + "X", m[:2], m + "1", "_" + m, m[0] + m, m[::-1]):
            yield enc(" %s\n" % t)
            yield enc("%s: NOP\n" % t)
            yield enc("%s = $10\n LDA %s\n" % (t, t))
    for _ in range(500):
        t = "".join(r.choice(A) for _ in range(3))
        yield enc("%s NOP\n JMP %s\n" % (t, t))


def lit(r, base, v, lz=0):
    s = {16: "%x", 10: "%d"}.get(base, None)
    t = (s % v) if s else bin(v)[2:]
    if base == 16:
        t = "".join(r.choice([c.upper(), c.lower()]) for c in t)
    return {16: "$", 2: "%", 10: ""}[base] + "0" * lz + t


def literals(r):
    fixed = ["$", "%", "$G", "%2", "1A", "0x10", "$$1", "%%1", "$1%", "12$", "$ 1", "% 1", "$FFFF", "$10000",
             "65535", "65536", "%1111111111111111", "%10000000000000000", "$0000000000000000000000001",
             "99999", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "$100000001",
             "$10000000000000001", "$1000000000000000000000001", "%1" + "0" * 64 + "1", "%1" + "0" * 32 + "1", "131072",
             "65537", "$1FFFF", "$10001", "$20000", "%" + "1" * 17, "%" + "0" * 60 + "1", "-1", "+1", "1.", "1_0", "$_",
             "$0", "%0", "0", "00", "$g1", "$1g", "%12", "$@", "$`", "$/", "$:", "9:", "/", "%3", "%/"]
    for c in range(1, 256):
        if c in b"\n":
            continue
        for pre in ("$", "%", "", "$1", "%1", "1", "$aF", "9"):
            yield b"\tLDA " + enc(pre) + bytes([c]) + b"\n"
            yield b"\tLDA " + enc(pre) + bytes([c]) + b"1\n"
    for f in fixed:
        yield enc("\tLDA %s\n" % f)
        yield enc("\t*=%s\nL:\n JMP L\n" % f)
    for b in (16, 2, 10):
        for v in list(range(0, 18)) + VALS + [0x9999, 0xABCD, 0xFACE]:
            yield enc("\tJMP %s\n" % lit(r, b, v))
            yield enc("L .EQU %s\n\tJMP L\n" % lit(r, b, v, r.randrange(1, 30)))
    for n in range(1, 122):
        for pre, dg in (("$", "0123456789abcdefABCDEF"), ("%", "01"), ("", "0123456789")):
            x = "".join(r.choice(dg) for _ in range(n))
            yield enc(" LDA %s%s\n" % (pre, x))
            for z in (1, 2, 5, 16):
                yield enc(" LDA %s%s\n" % (pre, "0" * max(0, n - z) + x[:z]))
            yield enc(" LDA %s%s\n" % (pre, "1" + "0" * (n - 1)))
            yield enc(" LDA %s%s\n" % (pre, x[:-1] + dg[-1] + r.choice("gG2:/@_") + x[:n // 2]))
    for _ in range(3000):
        b = r.choice((16, 2, 10))
        v = r.choice([r.randrange(65536), r.randrange(1 << 20), r.randrange(1 << 34), r.randrange(1 << r.randrange(1, 90)),
                      (1 << r.randrange(16, 100)) + r.randrange(65536)])
        yield enc("\tJMP %s\n" % lit(r, b, v, r.choice([0, 0, 0, 1, 5, 20])))


def rlabel(r, n=None):
    n = n or r.choice([1, 2, 3, 4, 5, 8, 20, 62, 63])
    s = r.choice("BCDEFGHIJKLMNOPQRSTUVWZ") + "".join(
        r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(n - 1))
    return s if s.upper() not in refasm.OPC else s + "_"


def ws(r, must=False):
    s = "".join(r.choice(" \t") for _ in range(r.choice([0, 0, 1, 1, 2, 3, 9] * 4 + [17, 33, 70])))
    return s or (" " if must else "")


def recase(r, s):
    return "".join(r.choice([c.upper(), c.lower()]) for c in s)


def render(r, toks, colon=False):
    """tokens -> text with random legal spacing"""
    out = ws(r)
    for i, t in enumerate(toks):
        out += recase(r, t)
        if i == 0 and colon:
            out += ":"
            out += ws(r)
            continue
        nxt = toks[i + 1] if i + 1 < len(toks) else None
        tight = nxt is not None and (t in "#(),=*" or nxt in "(),")
        out += ws(r, must=nxt is not None and not tight)
    return out


def statement(r, defs, refs, pcs=None):
    """a random valid-looking statement as (tokens, colon)"""
    k = r.random()
    if k < 0.08:
        l = rlabel(r)
        defs.append(l)
        return [l], r.random() < 0.5
    if k < 0.14:
        l = rlabel(r)
        defs.append(l)
        return [l, r.choice(["=", ".equ"]), lit(r, r.choice((16, 10, 2)), r.choice(VALS))], False
    if k < 0.18:
        l = rlabel(r)
        defs.append(l)
        return [".define", l, lit(r, 16, r.choice(VALS))], False
    if k < 0.20:
        return [".org", lit(r, 16, r.randrange(0, 0x300) * 16)], False
    if k < 0.22:
        return ["*", "=", lit(r, 16, r.randrange(0, 0x300) * 16)], False
    toks = []
    colon = False
    if r.random() < 0.3:
        l = rlabel(r)
        defs.append(l)
        toks.append(l)
        colon = r.random() < 0.5
    m = r.choice(M)
    if r.random() < 0.35:
        m = r.choice(sorted(refasm.BRANCH | refasm.JUMP))
    toks.append(m)
    ok = sorted(refasm.OPC[m])
    mode = r.choice(ok)
    if r.random() < 0.03:
        mode = r.choice(refasm.MODES)
    op = lit(r, r.choice((16, 10, 2)), r.choice(VALS) if mode in ("ABS", "ABX", "ABY", "IND") else r.randrange(256))
    if r.random() < 0.5 and mode in ("REL", "ABS", "IND", "ZP", "ZPX", "ABX", "IMM") and (defs or m in refasm.BRANCH or m in refasm.JUMP):
        if (m in refasm.BRANCH or m in refasm.JUMP) and r.random() < 0.5:
            op = r.choice(refs) if refs and r.random() < 0.3 else rlabel(r)
            refs.append(op)
        elif defs:
            op = r.choice(defs[-4:])
    if mode == "ACC":
        toks += r.choice([[], ["A"]])
    elif mode == "IMM":
        toks += ["#", op]
    elif mode in ("REL", "ABS", "ZP"):
        toks += [op]
    elif mode in ("ABX", "ZPX"):
        toks += [op, ",", "X"]
    elif mode in ("ABY", "ZPY"):
        toks += [op, ",", "Y"]
    elif mode == "IND":
        toks += ["(", op, ")"]
    elif mode == "INX":
        toks += ["(", op, ",", "X", ")"]
    elif mode == "INY":
        toks += ["(", op, ")", ",", "Y"]
    return toks, colon


def programs(r, count=4000, big=False):
    for i in range(count):
        defs, refs, out = [], [], []
        n = r.choice([1, 2, 3, 5, 8, 15]) if not big else r.choice([30, 80, 200])
        for _ in range(n):
            t, c = statement(r, defs, refs)
            if r.random() < 0.02:
                t = t + [r.choice(["X", "Y", "A", ",", "#", "$1", "NOP", "ZZ", ")", "=", ".end", "*"])]
            if r.random() < 0.1:
                out.append(ws(r) + r.choice(["", ";", "; LDA #1", ";x:y,(", "  ; c"]))
            out.append(render(r, t, c) + r.choice(["", "", "", " ;c", ";x"]))
        missing = [x for x in refs if x.upper() not in {d.upper() for d in defs}]
        for x in dict.fromkeys(missing):
            if r.random() < 0.97:
                out.append(recase(r, x) + r.choice([":", "", " = $12", " NOP"]))
        nl = r.choice(["\n", "\n", "\r\n"])
        src = nl.join(out) + r.choice([nl, ""])
        yield enc(src)


def lexing(r):
    base = ["LDA #$12", "LOOP: BNE LOOP", "LAB = %101", ".DEFINE L1 12", ".ORG $200", "* = $300", "JMP ($1234)", "L2 .EQU 9",
            "STA ($12),Y", "STA ($12,X)", "ASL A", "LDX $12,Y", "A_1b: NOP", ".END"]
    for b in base:
        for c in range(1, 256):
            if c == 10:
                continue
            i = r.randrange(len(b) + 1)
            yield enc(b[:i]) + bytes([c]) + enc(b[i:]) + b"\n NOP\n"
        for i in range(len(b) + 1):
            for s in (" ", "\t", " \t ", ":", ";", "\r", ",", "(", "=", "_", "."):
                yield enc(b[:i] + s + b[i:] + "\n NOP\n")
        yield enc(recase(r, b) + "\n")
        yield enc(b.lower() + " ; " + b + "\n")
    for n in (1, 2, 31, 61, 62, 63, 64, 65, 80, 120):
        l = rlabel(r, n)
        yield enc("%s:\n JMP %s\n" % (l, l.swapcase()))
        yield enc("%s = $12\n LDA %s\n" % (l, l))
        yield enc(" JMP %s\n%s NOP\n" % (l, l.lower()))
        yield enc(" .DEFINE %s 1\n LDA %s\n" % (l, l))
        yield enc(" .%s\n" % ("A" * n))
        yield enc("%s" % ("A" * n))
        for d in (0, n // 2, n - 1):
            l2 = l[:d] + ("Q" if l[d] not in "Qq" else "R") + l[d + 1:]
            if l2.upper() in refasm.OPC:
                continue
            yield enc("%s = 1\n%s = 2\n LDA #%s\n LDA #%s\n" % (l, l2, l, l2))
    for b in base:
        gaps = [i for i in range(len(b) + 1) if i in (0, len(b)) or b[i] in " #(),=:" or b[i - 1] in " #(),=:"]
        for i in gaps:
            for n in list(range(2, 20)) + [31, 32, 33, 63, 64, 65, 90, 127 - len(b), 126 - len(b), 125 - len(b), 128 - len(b), 140, 300]:
                yield enc(b[:i] + r.choice([" ", "\t"]) * n + b[i:] + "\n NOP\n")
        for n in range(0, 300, 7):
            yield enc(b + " ;" + "x\t (:"[r.randrange(5)] * n + "\n NOP\n")
    for n in (2, 3, 16, 33, 62, 63):
        l = rlabel(r, n).upper()
        for d in range(n):
            if l[d].isalpha() and l not in refasm.OPC:
                yield enc("%s = $12\n LDA %s\n" % (l, l[:d] + l[d].lower() + l[d + 1:]))
                yield enc("%s = $12\n%s = $13\n" % (l[:d] + l[d].lower() + l[d + 1:], l))
    for d in (".DEFINE", ".EQU", ".ORG", ".END", ".", ".DEF", ".ORGX", ".EN", ".ENDS", ".EQ", ".EQUU", ".DEFINEX", ".1", ".O1"):
        for f in ("%s", " %s $10", "L %s $10", "%s L $10", "%s:", "X%s"):
            yield enc((f % d) + "\n NOP\n")
            yield enc((f % d.lower()) + "\n NOP\n")
    for t in ("A", "X", "Y", "a", "x", "y"):
        for f in ("%s:", "%s = 1", " LDA %s", " ASL %s", " LDA $1,%s", " %s", ".define %s 1", "%s NOP", "%s1: NOP\n JMP %s1"):
            yield enc(f.replace("%s", t) + "\n")
    for _ in range(2500):
        t, c = statement(r, ["FOO"], [])
        s = render(r, t, c)
        s = list(s)
        for _ in range(r.choice([0, 1, 1, 2])):
            i = r.randrange(len(s) + 1)
            if r.random() < 0.5 or not s:
                s.insert(i, chr(r.choice([r.randrange(1, 256), ord(r.choice(" \t:;,()#=*.$%_AXY09"))])))
            else:
                s.pop(min(i, len(s) - 1))
        s = "".join(s).replace("\n", "")
        yield enc("FOO = 5\n" + s + "\n NOP\n")


KINDS = ["LBL", "$12", "NOP", "JMP", "LDA", "#", "(", ")", ",", "=", "X", "Y", "*", ".equ", ".define", ".org", ".end", "A"]
VALID = [["I"], ["I", "A"], ["I", "#", "N"], ["I", "#", "L"], ["I", "N"], ["I", "L"], ["I", "N", ",", "X"], ["I", "N", ",", "Y"], ["I", "L", ",", "X"],
         ["I", "(", "N", ")"], ["I", "(", "N", ",", "X", ")"], ["I", "(", "N", ")", ",", "Y"], ["I", "(", "L", ")", ",", "Y"],
         ["L"], ["L", "=", "N"], ["L", ".equ", "N"], [".define", "L", "N"], [".org", "N"], ["*", "=", "N"], [".end"], []]


def grammar(r):
    def tx(k):
        return {"I": r.choice(["LDA", "ASL", "JMP", "BNE", "STX", "NOP", "LDX", "ADC"]), "L": r.choice(["LBL", "DEF"]), "N": r.choice(["$12", "$1234", "7"])}.get(k, k)
    seen = set()

    def out(seq):
        s = " ".join(seq)
        if s in seen:
            return None
        seen.add(s)
        return enc("DEF = $20\n " + s + "\nLBL2: NOP\n" + (" .ORG $40\n" if r.random() < .1 else ""))
    for a in [[]] + [[k] for k in KINDS] + [[k, l] for k in KINDS for l in KINDS]:
        x = out(a)
        if x:
            yield x
    alls = VALID + [["L"] + v for v in VALID if v and v[0] == "I"]
    for v in alls:
        for _ in range(3):
            yield out([tx(k) for k in v]) or b"\n"
        for i in range(len(v) + 1):
            for k in KINDS:
                x = out([tx(t) for t in v[:i]] + [k] + [tx(t) for t in v[i:]])
                if x:
                    yield x
                if i < len(v):
                    x = out([tx(t) for t in v[:i]] + [k] + [tx(t) for t in v[i + 1:]])
                    if x:
                        yield x
            if i < len(v):
                x = out([tx(t) for t in v[:i] + v[i + 1:]])
                if x:
                    yield x
        for n in (1, 2, 3, 4, 6):
            x = out([tx(t) for t in v] + [r.choice(KINDS) for _ in range(n)])
            if x:
                yield x
    for _ in range(1500):
        x = out([r.choice(KINDS) for _ in range(r.choice([3, 4, 5, 8, 9, 12]))])
        if x:
            yield x


def djb2(s):
    h = 5381
    for c in s:
        h = (h * 33 + ord(c)) & ((1 << 64) - 1)
    return h


def symbols(r):
    def prog(labels, probes=None):
        vals = {}
        out = []
        for l in labels:
            vals[l] = r.randrange(65536)
            out.append("%s = $%x" % (l, vals[l]))
        for l in probes or labels:
            out.append(" JMP %s" % l)
        return enc("\n".join(out) + "\n")
    # labels falling into chosen slots of the successive table sizes
    pool = ["B%d" % i for i in range(6000)] + ["ZZ%d_" % i for i in range(3000)]
    for size in (17, 37, 79, 163):
        for slot in (0, size - 1, size - 2, size // 2, 1):
            ls = [p for p in pool if djb2(p) % size == slot]
            for n in (1, 2, 3, 5, 8, 9, 10, 17, 18, 19, 20):
                if len(ls) >= n:
                    x = r.sample(ls, n)
                    yield prog(x)
                    yield prog(x, x[:3] + ["NOPE"])
    for n in list(range(0, 45)) + [78, 79, 80, 81, 82, 83, 160, 170, 350, 1000]:
        x = [rlabel(r, r.choice([2, 3, 4, 9])).upper() for _ in range(n)]
        x = list(dict.fromkeys(x))
        yield prog(x)
        if x:
            yield prog(x + [r.choice(x)])
            yield prog(x, x + ["MISS1"])
    for _ in range(600):
        n = r.choice([3, 8, 9, 12, 18, 19, 40, 90])
        x = list(dict.fromkeys("".join(r.choice("BCDE") for _ in range(r.choice([2, 3, 4, 5]))) for _ in range(n)))
        x = [a for a in x if a not in refasm.OPC]
        yield prog(x)


def labels(r):
    D = ["%s", "%s:", "%s NOP", "%s: LDA #1", "%s = $33", "%s .EQU $1234", ".DEFINE %s 7", "%s: BNE %s", "%s: JMP %s", "%s: LDA %s", "%s = 0"]
    for a in D:
        for pre in ("", " NOP\n", " .ORG $FF\n", " .ORG $100\n", " LDA $1234\n", "* = $FFFD\n", " JMP Q\nQ:\n", " JMP T\n", " BNE T\n"):
            for use in (" JMP T", " LDA T", " LDA #T", " BNE T", " JMP (T)", " STA T,X", ""):
                yield enc(pre + a.replace("%s", "T") + "\n" + use + "\n")
                for b in D:
                    if r.random() < 0.08:
                        yield enc(pre + a.replace("%s", "T") + "\n NOP\n" + b.replace("%s", r.choice("Tt")) + "\n" + use + "\n")
    yield from programs(r, 800)


def branches(r):
    B = sorted(refasm.BRANCH)
    for d in list(range(-135, -118)) + list(range(118, 136)) + [-2, -1, 0, 1, 2, 3, -200, 200, -1000, 1000, -300, 300, 254, 255, 256, 257, 384]:
        for at in (0x0, 0x200, 0x80, 0xFF, 0x1FF0, 0xFF70, 0x7FF0):
            dest = at + 2 + d
            if not 0 <= dest <= 0xFFFF:
                continue
            b = r.choice(B)
            yield enc(" .ORG $%x\nT:\n .ORG $%x\n %s T\n" % (dest, at, b))
            yield enc(" .ORG $%x\n %s T\n .ORG $%x\nT:\n" % (at, b, dest))
            yield enc("T = $%x\n .ORG $%x\n %s T\n" % (dest, at, b))
            yield enc(" .ORG $%x\n %s T\nT = $%x\n" % (at, b, dest))
    for d in range(0, 140):
        yield enc("T:\n" + " NOP\n" * d + " BNE T\n")
        yield enc(" BEQ T\n" + " NOP\n" * d + "T: RTS\n")
    far = [0, 1, 0x7D, 0x80, 0xFF, 0x100, 0x1FFF, 0x7FFD, 0x7FFF, 0x8000, 0x80FF, 0xFEFF, 0xFF00, 0xFF80, 0xFFF0, 0xFFFD, 0xFFFF]
    for at in far:
        for dest in far:
            if at < 0xFFFE:
                yield enc(" .ORG $%x\n %s T\nT = $%x\n" % (at, r.choice(B), dest))
                yield enc("T = $%x\n .ORG $%x\n %s T\n" % (dest, at, r.choice(B)))
    for v in [0, 1, 127, 128, 254, 255, 256, 257, 4660, 65535]:
        for b in B:
            yield enc(" %s %d\n" % (b, v))
    for dest in VALS + [r.randrange(65536) for _ in range(100)]:
        for m, f in (("JMP", "%s"), ("JSR", "%s"), ("JMP", "(%s)")):
            yield enc(" .ORG $%x\nT:\n .ORG $300\n %s %s\n" % (dest, m, f % "T"))
            yield enc(" .ORG $300\n %s %s\n .ORG $%x\nT:\n" % (m, f % "T", dest))


def fwdrefs(r):
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 200, 255, 256, 257, 300, 513, 1030]:
        for kind in (" JMP %s", " JSR %s", " BNE %s", " JMP (%s)"):
            out = []
            for i in range(n):
                out.append((kind % ("L%d" % (i % r.choice([1, 2, n])))))
            if "BNE" in kind:
                out = []
                for i in range(n):
                    out.append(" BNE L%d\n NOP\nL%d: NOP" % (i, i))
                yield enc("\n".join(out) + "\n")
                continue
            for i in range(n):
                out.append("L%d: NOP" % i)
            yield enc("\n".join(out) + "\n")
            # one missing
            out2 = [o for o in out if o != "L%d: NOP" % r.randrange(n)]
            yield enc("\n".join(out2) + "\n")
            r.shuffle(out)
            yield enc("\n".join(out) + "\n")
    yield from fwdmodes(r)
    yield from programs(r, 800)


def placement(r):
    for _ in range(1500):
        out, at = [], set()
        L = 0
        for _ in range(r.choice([1, 2, 3, 5, 9])):
            o = r.choice([0, 1, 5, 0x10, 0xFD, 0x100, 0x1FF, 0x200, 0x1000, 0xFFF0, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, r.randrange(65536)])
            if r.random() < 0.8:
                out.append(r.choice([" .ORG $%x", " * = $%x", "*=$%x"]) % o)
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                L += 1
                out.append(r.choice([" NOP", " LDA #$11", " LDA $2233", " JMP F%d" % r.randrange(4), " JSR F1", "K%d: LDX #1" % L, "K%d:" % L, " BNE *", "K%d = 3" % L,
                                     "K%d BNE K%d" % (L, L), " JMP (F2)", "; c", ""]).replace("BNE *", "BNE $10"))
            if r.random() < 0.05:
                out.append(" .END")
        for i in range(4):
            if any("F%d" % i in o for o in out):
                out.append("F%d = $%x" % (i, r.randrange(65536)))
        yield enc("\n".join(out) + "\n")
    for o in (0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF):
        for s in ("NOP", "LDA #1", "LDA $1234", "JMP L", "BNE L", "JSR L"):
            for t in ("", "L:", "L: NOP", "L = 5"):
                yield enc(" .ORG $%x\n %s\n%s\n" % (o, s, t))
    for n in (21844, 21845, 21846):
        yield enc(" JMP $1234\n" * n)
    for n in (300, 33000, 66000):
        yield enc("".join("L%d = %d\n" % (i, i & 0xFFFF) for i in range(n)) + " JMP L%d\n" % (n // 2))
    for s in ("NOP\n.END\n", ".END\n LDA #1\n", ".END\n garbage!!\n", "L:\n.END\nL:\n", " JMP L\n.END\nL:\n", ".END ; x\n", ".END X\n", "L: NOP\n.end"):
        yield enc(s)
    yield from programs(r, 500)
    yield from programs(r, 60, big=True)


BAD = ["LDA", "LDA #$1234", "!x", "LDA @", "LBL LBL", "BNE", "LDA UNDEF", "FOO: NOP", "LDA $10,Z", ".FOO", "LDA $10000", "* = L", "LDA ($12", "STA #1", "JMP ($1),Y",
       "x", "LDA $1,X,Y", ".ORG", "LDA #", "L" * 70, "LDA 1 2 3 4 5 6 7 8 9", "BNE $1234", "BNE FAR", "JMP UNDEF2", "JMP FWD,X", "NOP NOP", "FOO = 1", ".DEFINE FOO 2", "NOP:", "L 5 :"]


def errors(r):
    for b in BAD:
        for _ in range(14):
            pre = ["FOO = $1", "FAR = $4000"]
            for _ in range(r.choice([0, 1, 3, 9, 30])):
                pre.append(r.choice(["", ";", "; comment", " NOP", "\t", "Q%d:" % len(pre), " ;" + "x" * r.choice([10, 130, 126, 125, 127, 260]), " JMP FUT", " " * r.choice([126, 127, 128, 300]), "\r"]))
            lead = "".join(r.choice([" ", "\t", "  ", ""]) for _ in range(r.choice([0, 1, 2, 5])))
            body = b.replace(" ", r.choice([" ", "\t", "   ", " \t ", "\t\t"]))
            tail = r.choice(["", " ", "\t", " ; c", "  \t ", ";"])
            post = r.choice(["", " NOP", "FUT: NOP", " LDA !"])
            nl = r.choice(["\n", "\n", "\r\n"])
            yield enc("\n".join(pre) + "\n" + lead + body + tail + nl + post + "\nFUT2:\n" + r.choice(["", "FUT = 3\n"]))
    for n in (100, 125, 126, 127, 128, 129, 140, 200, 254, 255, 300):
        for fill in (" ", "x", "\t"):
            yield enc(" NOP ;" + fill * n + "\n LDA !\n")
            yield enc(" NOP" + fill * n + ";c\n LDA !\n")
            yield enc(" NOP" + fill * n + "NOP\n LDA !\n")
            yield enc(fill * n + "NOP\n LDA !\n")
    for n in (255, 256, 300, 32767, 32768, 65534, 65535, 65536, 70000):
        yield enc(r.choice(["", ";", " ; c"]) + "\n" * n + " LDA !\n")
        yield enc("\n" * n + " JMP L\nM:\n")
    yield from programs(r, 400)


def robust(r):
    yield b""
    for s in (b"\0", b"\n", b"\xff", b"\0\0\0\n", b" NOP\0 LDA\n NOP", b"\xff\n NOP\n", b";\xff\n", b" LDA #$1\xff junk\n", b"\r", b"\r\n\r\n", b"\t", b" "):
        yield s
        yield s * 200
    for n in list(range(120, 136)) + [253, 254, 255, 256, 381, 1000, 5000]:
        for c in (b" ", b"A", b"$", b"0", b";", b"\t", b"\0", b"\xff", b"(", b".", b":", b"1"):
            yield c * n
            yield c * n + b"\n NOP\n"
            yield b" LDA " + c * n + b"\n"
            yield b" NOP ;" + c * n + b"\nX1: NOP\n"
    for _ in range(1500):
        n = r.choice([1, 5, 20, 100, 127, 128, 300])
        yield bytes(r.choice([r.randrange(256), r.choice(b" \t\n;:$%#(),=*.AXYLDB019")]) for _ in range(n))
    yield from lexing(r)
    yield from literals(r)
    yield from programs(r, 500)


GENS = dict(modes=modes, fwdmodes=fwdmodes, words=words, literals=literals, lexing=lexing, grammar=grammar, symbols=symbols, labels=labels,
            branches=branches, fwdrefs=fwdrefs, placement=placement, errors=errors, robust=robust, programs=programs)
PROP = {
 "C01": ["modes", "words", "programs"], "C02": ["modes", "fwdmodes", "programs"], "C03": ["literals"], "C04": ["lexing", "words", "literals"],
 "C05": ["grammar", "lexing"], "C06": ["symbols", "programs"], "C07": ["labels", "symbols", "placement"], "C08": ["branches", "fwdrefs"], "C09": ["fwdrefs", "labels"],
 "C10": ["placement", "programs", "fwdrefs"], "C11": ["errors", "grammar", "programs", "placement", "branches", "fwdrefs", "modes"], "C12": ["errors", "lexing", "grammar", "fwdrefs"],
 "C13": ["robust", "errors", "symbols", "fwdrefs", "placement"],
}


def stream(prop, seed):
    """interleaves the property's generators"""
    its = []
    for g in PROP[prop]:
        its.append(GENS[g](random.Random("%s/%s/%d" % (prop, g, seed))))
    while its:
        for it in list(its):
            n = 0
            for x in it:
                yield x
                n += 1
                if n == 50:
                    break
            if n < 50:
                its.remove(it)
