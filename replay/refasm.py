"""Independent reference assembler for gaia's dialect.

Used only to FIND A CONCRETE FAILING INPUT once the verifier has rejected an
obligation (never to decide a property): it says what gaia should print,
return and write for a given source file.  Written from the documentation and
the property statements; it shares no code with /repo.
"""
MODES = ["ACC", "IMP", "IMM", "REL", "ABS", "ABX", "ABY", "IND", "INX", "INY",
         "ZP", "ZPX", "ZPY"]
# opcode matrix, from the 6502 programming manual
OPC = {
 "ADC": dict(IMM=0x69, ZP=0x65, ZPX=0x75, ABS=0x6D, ABX=0x7D, ABY=0x79, INX=0x61, INY=0x71),
 "AND": dict(IMM=0x29, ZP=0x25, ZPX=0x35, ABS=0x2D, ABX=0x3D, ABY=0x39, INX=0x21, INY=0x31),
 "ASL": dict(ACC=0x0A, ZP=0x06, ZPX=0x16, ABS=0x0E, ABX=0x1E),
 "BCC": dict(REL=0x90), "BCS": dict(REL=0xB0), "BEQ": dict(REL=0xF0), "BMI": dict(REL=0x30),
 "BNE": dict(REL=0xD0), "BPL": dict(REL=0x10), "BVC": dict(REL=0x50), "BVS": dict(REL=0x70),
 "BIT": dict(ZP=0x24, ABS=0x2C), "BRK": dict(IMP=0x00),
 "CLC": dict(IMP=0x18), "CLD": dict(IMP=0xD8), "CLI": dict(IMP=0x58), "CLV": dict(IMP=0xB8),
 "CMP": dict(IMM=0xC9, ZP=0xC5, ZPX=0xD5, ABS=0xCD, ABX=0xDD, ABY=0xD9, INX=0xC1, INY=0xD1),
 "CPX": dict(IMM=0xE0, ZP=0xE4, ABS=0xEC), "CPY": dict(IMM=0xC0, ZP=0xC4, ABS=0xCC),
 "DEC": dict(ZP=0xC6, ZPX=0xD6, ABS=0xCE, ABX=0xDE), "DEX": dict(IMP=0xCA), "DEY": dict(IMP=0x88),
 "EOR": dict(IMM=0x49, ZP=0x45, ZPX=0x55, ABS=0x4D, ABX=0x5D, ABY=0x59, INX=0x41, INY=0x51),
 "INC": dict(ZP=0xE6, ZPX=0xF6, ABS=0xEE, ABX=0xFE), "INX": dict(IMP=0xE8), "INY": dict(IMP=0xC8),
 "JMP": dict(ABS=0x4C, IND=0x6C), "JSR": dict(ABS=0x20),
 "LDA": dict(IMM=0xA9, ZP=0xA5, ZPX=0xB5, ABS=0xAD, ABX=0xBD, ABY=0xB9, INX=0xA1, INY=0xB1),
 "LDX": dict(IMM=0xA2, ZP=0xA6, ZPY=0xB6, ABS=0xAE, ABY=0xBE),
 "LDY": dict(IMM=0xA0, ZP=0xA4, ZPX=0xB4, ABS=0xAC, ABX=0xBC),
 "LSR": dict(ACC=0x4A, ZP=0x46, ZPX=0x56, ABS=0x4E, ABX=0x5E), "NOP": dict(IMP=0xEA),
 "ORA": dict(IMM=0x09, ZP=0x05, ZPX=0x15, ABS=0x0D, ABX=0x1D, ABY=0x19, INX=0x01, INY=0x11),
 "PHA": dict(IMP=0x48), "PHP": dict(IMP=0x08), "PLA": dict(IMP=0x68), "PLP": dict(IMP=0x28),
 "ROL": dict(ACC=0x2A, ZP=0x26, ZPX=0x36, ABS=0x2E, ABX=0x3E),
 "ROR": dict(ACC=0x6A, ZP=0x66, ZPX=0x76, ABS=0x6E, ABX=0x7E),
 "RTI": dict(IMP=0x40), "RTS": dict(IMP=0x60),
 "SBC": dict(IMM=0xE9, ZP=0xE5, ZPX=0xF5, ABS=0xED, ABX=0xFD, ABY=0xF9, INX=0xE1, INY=0xF1),
 "SEC": dict(IMP=0x38), "SED": dict(IMP=0xF8), "SEI": dict(IMP=0x78),
 "STA": dict(ZP=0x85, ZPX=0x95, ABS=0x8D, ABX=0x9D, ABY=0x99, INX=0x81, INY=0x91),
 "STX": dict(ZP=0x86, ZPY=0x96, ABS=0x8E), "STY": dict(ZP=0x84, ZPX=0x94, ABS=0x8C),
 "TAX": dict(IMP=0xAA), "TAY": dict(IMP=0xA8), "TSX": dict(IMP=0xBA), "TXA": dict(IMP=0x8A),
 "TXS": dict(IMP=0x9A), "TYA": dict(IMP=0x98)}
BRANCH = {m for m in OPC if "REL" in OPC[m]}
JUMP = {"JMP", "JSR"}
EOL = b"\r\n;\0\xff"
EOT = b" \t\r\n\0,();\xff"
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
DIG = {16: b"0123456789abcdefABCDEF", 2: b"01", 10: b"0123456789"}
WORD = ALPHA + b"0123456789_"


class Err(Exception):
    def __init__(self, line, text=None, pos=None, kind=""):
        self.line, self.text, self.pos, self.kind = line, text, pos, kind


def lex_token(s, p, n, text):
    """token at s[p:]; returns (type, text, value, length); raises on error"""
    c = s[p:p + 1]

    def bad(q, kind):
        raise Err(n, text, q, kind)
    if c in (b"#", b"(", b")", b",", b"=", b"*"):
        return (c.decode(), c, 0, 1)
    if c in [bytes([a]) for a in ALPHA]:
        q = p
        while True:
            if q - p == 64:
                bad(p, "longlabel")
            ch = s[q]
            if ch in EOT or ch == 0x3A:
                break
            if ch not in WORD:
                bad(q, "char")
            q += 1
        t = s[p:q].upper()
        ty = "L"
        if t in (b"X", b"Y", b"A"):
            ty = t.decode()
        elif t.decode() in OPC:
            ty = "I"
        return (ty, t, 0, q - p)
    if c in (b"$", b"%") or c.isdigit():
        base = {b"$": 16, b"%": 2}.get(c, 10)
        q = p + (base != 10)
        st = q
        while True:
            ch = s[q]
            if ch in DIG[base]:
                q += 1
            elif ch in EOT:
                break
            else:
                bad(q, "char")
        if q == st:
            bad(q, "char")
        v = int(s[st:q], base)
        if v > 0xFFFF:
            bad(p, "bigliteral")
        return ("N", s[p:q], v, q - p)
    if c == b".":
        q = p + 1
        while True:
            if q - p == 64:
                bad(p, "directive")
            ch = s[q]
            if ch in EOT:
                break
            if ch not in ALPHA:
                bad(q, "char")
            q += 1
        t = s[p:q].upper()
        ty = {b".DEFINE": "D", b".EQU": "E", b".ORG": "O", b".END": "Z"}.get(t)
        if not ty:
            bad(p, "directive")
        return (ty, t, 0, q - p)
    bad(p, "char")


def tokenize(cs, n):
    """cs: C string (no NUL); returns tokens, or raises; 9th token => 'many'"""
    s = cs + b"\0"
    p = 0
    toks = []
    while s[p] in b" \t":
        p += 1
    while s[p] not in EOL:
        ty, t, v, ln = lex_token(s, p, n, cs)
        if len(toks) == 8:
            return toks, True
        toks.append((ty, t, v, p))
        p += ln
        if s[p] == 0x3A:
            if ty == "L" and len(toks) == 1:
                p += 1
            else:
                raise Err(n, cs, p, "char")
        while s[p] in b" \t":
            p += 1
    return toks, False


def parse(toks, n, cs):
    """returns (kind, ...) ; raises at the first offending token"""
    def T(i):
        return toks[i][0] if i < len(toks) else None

    def bad(i):
        raise Err(n, cs, toks[i][3] if i < len(toks) else None, "syntax")

    def need(i, *ty):
        if T(i) not in ty:
            bad(i)

    def instr(i):
        # toks[i] is the instruction; returns (form, operand index)
        i += 1
        t = T(i)
        if t is None:
            return ("none", None)
        if t == "A":
            need(i + 1, None)
            return ("A", None)
        if t == "#":
            need(i + 1, "L", "N")
            need(i + 2, None)
            return ("#", i + 1)
        if t == "(":
            need(i + 1, "L", "N")
            if T(i + 2) == ",":
                need(i + 3, "X")
                need(i + 4, ")")
                need(i + 5, None)
                return ("(,X)", i + 1)
            need(i + 2, ")")
            if T(i + 3) == ",":
                need(i + 4, "Y")
                need(i + 5, None)
                return ("(),Y", i + 1)
            need(i + 3, None)
            return ("()", i + 1)
        if t in ("L", "N"):
            if T(i + 1) == ",":
                need(i + 2, "X", "Y")
                need(i + 3, None)
                return ("," + T(i + 2), i)
            need(i + 1, None)
            return ("", i)
        bad(i)
    t = T(0)
    if t is None:
        return ("empty",)
    if t == "I":
        return ("instr", None, 0) + instr(0)
    if t == "L":
        if T(1) in ("=", "E"):
            need(2, "N")
            need(3, None)
            return ("const", 0, 2)
        if T(1) == "I":
            return ("instr", 0, 1) + instr(1)
        need(1, None)
        return ("label", 0)
    if t == "D":
        need(1, "L")
        need(2, "N")
        need(3, None)
        return ("const", 1, 2)
    if t == "O":
        need(1, "N")
        need(2, None)
        return ("org", 1)
    if t == "Z":
        need(1, None)
        return ("end",)
    if t == "*":
        need(1, "=")
        need(2, "N")
        need(3, None)
        return ("org", 2)
    bad(0)


SIZE = dict(ACC=1, IMP=1, IMM=2, REL=2, ABS=3, ABX=3, ABY=3, IND=3, INX=2, INY=2, ZP=2, ZPX=2, ZPY=2)


def pick_mode(mn, form, val, islabel, forward):
    """addressing mode or None (illegal)"""
    big = val > 0xFF
    if form == "none":
        m = "ACC" if mn in ("ASL", "LSR", "ROL", "ROR") else "IMP"
    elif form == "A":
        m = "ACC"
    elif mn in BRANCH:
        m = "REL" if form == "" and (islabel or not big) else None
    elif mn in JUMP:
        m = {"": "ABS", "()": "IND"}.get(form)
    elif form == "#":
        m = None if big else "IMM"
    elif form == "()":
        m = None
    elif form == "(,X)":
        m = None if big else "INX"
    elif form == "(),Y":
        m = None if big else "INY"
    elif form == "":
        m = "ABS" if big else "ZP"
    elif form == ",X":
        m = "ABX" if big else "ZPX"
    else:
        m = "ABY" if big else "ZPY"
    return m if m in OPC[mn] else None


def physical_lines(src):
    i = 0
    while i < len(src):
        j = src.find(b"\n", i)
        j = len(src) if j < 0 else j + 1
        yield src[i:j]
        i = j


def assemble(src, info=None):
    """returns ('ok', image {addr: byte}, overlap set, total, nsyms) or ('fail', Err)"""
    syms, refs, img, overlap = {}, [], {}, set()
    pc = total = 0
    n = 0

    def emit(at, bs, patch=False):
        for k, b in enumerate(bs):
            if at + k in img and not patch:
                overlap.add(at + k)
            img[at + k] = b
    try:
        for raw in physical_lines(src):
            n += 1
            buf, tail = raw[:127], raw[127:]
            z = buf.find(b"\0")
            cs = buf if z < 0 else buf[:z]
            if len(raw) > 127 and tail != b"\n":
                if not any(c in EOL for c in buf):
                    for c in tail:
                        if c in EOL:
                            break
                        if c not in b" \t":
                            raise Err(n, cs, None, "longline")
            toks, many = tokenize(cs, n)
            if many:
                parse(toks, n, cs)
                raise AssertionError("8 tokens parse")
            st = parse(toks, n, cs)
            if st[0] == "empty":
                continue
            if st[0] == "end":
                break
            if st[0] == "org":
                pc = toks[st[1]][2]
                continue
            if st[0] == "const" or (st[0] in ("label", "instr") and st[1] is not None):
                name = toks[st[1]]
                if name[1] in syms:
                    raise Err(n, cs, name[3], "redefinition")
                if st[0] != "const" and pc > 0xFFFF:
                    raise Err(n, cs, None, "range")
                syms[name[1]] = toks[st[2]][2] if st[0] == "const" else pc
            if st[0] != "instr":
                continue
            mn = toks[st[2]][1].decode()
            form, oi = st[3], st[4]
            val, islabel, fwd = 0, False, False
            if oi is not None:
                ty, t, v, p = toks[oi]
                if ty == "N":
                    val = v
                else:
                    islabel = True
                    if t in syms:
                        val = syms[t]
                    elif mn in BRANCH or mn in JUMP:
                        fwd = True
                    else:
                        raise Err(n, cs, p, "forward")
            m = pick_mode(mn, form, val, islabel, fwd)
            if m is None:
                raise Err(n, cs, None, "mode")
            size = SIZE[m]
            if fwd:
                refs.append((t, pc, mn, m, n, cs, p))
                bs = [0] * size
            else:
                if m == "REL" and islabel:
                    off = val - pc - 2
                    if not -128 <= off <= 127:
                        raise Err(n, cs, p, "offset")
                    val = off & 0xFF
                bs = [OPC[mn][m], val & 0xFF, val >> 8][:size]
            if pc + size > 0x10000:
                raise Err(n, cs, None, "range")
            emit(pc, bs)
            pc += size
            total += size
        for (t, at, mn, m, ln, cs, p) in refs:
            if t not in syms:
                raise Err(ln, cs, p, "missing")
            v = syms[t]
            if m == "REL":
                off = v - at - 2
                if not -128 <= off <= 127:
                    raise Err(ln, cs, p, "offset")
                v = off & 0xFF
            emit(at, [OPC[mn][m], v & 0xFF, v >> 8][:SIZE[m]], True)
    except Err as e:
        return ("fail", e)
    return ("ok", img, overlap, total, len(syms))


def expected_diag(e, fname):
    """the diagnostic's (prefix, shown line, marker line or None)"""
    shown = e.text
    while len(shown) > 1 and shown[-1:] in (b" ", b"\t", b"\n", b"\xff"):
        shown = shown[:-1]
    marker = None
    if e.pos is not None:
        col = 0
        for c in e.text[:e.pos]:
            col = (col // 8 + 1) * 8 if c == 9 else col + 1
        marker = b" " * col + b"^"
    return fname.encode() + b":%d: " % e.line, shown, marker
