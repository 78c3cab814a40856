"""The jobs: which real functions are checked against which contracts."""
import re
import engine
from engine import Job

CHARP = ("const char *", "char *", "const unsigned char *", "unsigned char *", "const char *const")
INTS = ("int", "unsigned int", "long", "unsigned long", "size_t", "unsigned long long", "long long", "uint32_t", "uint64_t", "ptrdiff_t", "ssize_t")
SMALL = ("short", "unsigned short", "char", "signed char", "unsigned char", "uint8_t", "int8_t", "uint16_t", "int16_t", "_Bool", "bool")
STRLOOPS = [("memcpy", None, 66), ("strlen", None, 66), ("strcmp", None, 66)]


def has_ptr(L):
    return any(t in CHARP for n, t in L.mod)


# ---- one token: lex and everything below it (lexer.c, opcode.c)
LEXHDR = "_Bool vp_pos_at(const char *p), vp_pos_int(long i), vp_value(long v); long vp_pos(void); extern char b[]; extern int k_o, k_lo;"


def lex_cands(ty, n, L):
    if ty in CHARP:
        return [(n, "(%s)(b + vp_pos())" % ty, "vp_pos_at(%s)" % n, "%s - b" % n)]
    if ty in INTS:
        c = []
        if has_ptr(L):
            c += ["%s == k_o" % n, "%s == k_o - k_lo" % n]
        else:
            c += [(n, "vp_pos()", "vp_pos_int(%s)" % n, "(long)%s" % n)]
        return c + ["vp_value(%s)" % n]
    return []


LEXF = ("lex", "lex_literal", "lex_text", "lex_directive", "lex_instruction", "str_to_mnemonic", "get_addr_bitfield", "token_strncpy",
        "is_end_of_token", "is_valid_token_char", "hex_digit_to_int", "bin_digit_to_int", "dec_digit_to_int")


def lexjob(name, cls, base=None, cut=True, **k):
    defs = ["-DCLASS=%d" % cls, "-DSTUBS"] + (["-DBASE=%d" % base] if base else []) + ([] if cut else ["-DNOCUT"])
    return Job(name, ["lexer.c", "opcode.c"], "lex_cut.c", defs, stubs=["stub_err.c"],
               remove=[f for i, f in enumerate(("lex_literal", "lex_text", "lex_directive")) if i != cls],
               cut=("lexer.c", lambda L: L.fn in LEXF[1:4] or L.pure and L.fn in LEXF, lex_cands, LEXHDR) if cut else None,
               unwind=130, unwindset=STRLOOPS, functions=LEXF, timeout=300, **k)


def lexjobs(classes):
    out = []
    for c in classes:
        if c == 0:
            out += [lexjob("lex-literal/%d" % b, 0, b, weight=5,
                           fallback=[lexjob("lex-literal-unrolled/%d" % b, 0, b, cut=False)]) for b in (16, 2, 10)]
        elif c in (1, 2):
            nm = "lex-word" if c == 1 else "lex-directive"
            out += [lexjob(nm, c, weight=60, cut=False)]
        else:
            out += [lexjob("lex-other", 3, cut=False)]
    return out


# ---- a line: lex_line over lex's contract
LINEHDR = "_Bool vp_blank_at(const char *); const char *vp_blank(void); extern const char *k_line; extern int k_pos[10], k_n;"


def line_cands(ty, n, L):
    if ty in CHARP:
        if "lex" in L.calls:
            return [(n, "k_line + k_pos[k_n]")]
        return [(n, "vp_blank()", "vp_blank_at(%s)" % n, "%s - k_line" % n)]
    return []


def linejobs():
    return [Job("lex-line/%d" % k, ["lexer.c", "opcode.c"], "lex_line.c", ["-DKN=%d" % k], remove=["lex"], stubs=["stub_err.c"],
                cut=("lexer.c", lambda L: "lex" in L.calls or L.pure and L.fn not in LEXF and has_ptr(L), line_cands, LINEHDR),
                unwindset=STRLOOPS, functions=("lex_line", "add_token", "reset_lexer", "reset_token", "token_strcpy", "reset_instruction", "end_line_lexing"))
            for k in range(9)]


# ---- main, parser.c, generator.c, opcode.c, assemble.c over the contracts of the rest
MAINHDR = "extern long vp_line; extern int vp_pc, vp_total, vp_i; extern _Bool vp_end, vp_code;"
MAINSRC = ["main.c", "parser.c", "generator.c", "opcode.c", "assemble.c"]
INPUT = {"fgetc", "getc", "fgets", "getchar"}
MAINF = ("main", "read_line", "abort_gaia", "parse_opt", "parse_line", "parse_instr_tree", "parse_indirect_operand_tree", "parse_label_tree", "parse_directive_tree",
         "parse_base_tree", "parse_label_declaration", "parse_operand", "parse_label_operand", "find_operand", "apply_masks",
         "parse_forward_ref_addr_mode", "parse_addr_mode", "generate_code", "calc_branch_offset", "resolve_label_ref", "resolve_forward_ref",
         "is_branch", "is_jump", "get_opcode", "assemble_*")


def main_select(L):
    if "lex_line" in L.calls:
        return 1
    if L.calls & INPUT:
        return 2
    if not L.pure:
        return 4
    return 0


def main_cands(ty, n, L):
    if ty not in INTS + SMALL:
        return []
    # the conversion matters for types too narrow for what they count
    t = "(__typeof__(%s))" % n if ty in SMALL else ""
    if L.mask == 1:
        return ["%s == 0" % n, "%s == 1" % n, "%s == %s(vp_line + 1)" % (n, t), "%s == %s vp_line" % (n, t), "%s == %s vp_pc" % (n, t), "%s == %s vp_total" % (n, t)]
    if L.mask == 2:
        return ["(%s != 0) == vp_end" % n, "(%s != 0) == vp_code" % n]
    return ["%s == 0" % n, "%s == 1" % n, "%s == %s vp_i" % (n, t)]


MAINLOOPS = [("lex_line", None, 15), ("fgets", None, 130), ("strcspn", None, 129), ("strspn", None, 129), ("strchr", None, 129), ("printf", None, 101), ("puts", None, 101)]


def mainjob(name, cut=True, defs=(), **k):
    return Job(name, MAINSRC, "main.c", ["-Dmain=gaia_main"] + (["-DVP_STEPPING"] if cut else ["-DNOCUT"]) + list(defs),
               remove=("init_instruction", "destroy_instruction", "reset_instruction"),
               cut=("main.c", main_select, main_cands, MAINHDR) if cut else None,
               need=("== .*vp_pc", "== .*vp_total", "== .*vp_line", "== .*vp_i") if cut else (), unwind=12, unwindset=MAINLOOPS, first=200, bound=None if cut else ("main.c", 3), functions=MAINF, **k)


NOMEM = ("--no-standard-checks", "--unwinding-assertions")


def mainjobs(mem):
    """mem: memory safety and arithmetic too"""
    return [mainjob("main", args=() if mem else NOMEM, timeout=400, weight=80,
                    fallback=[mainjob("main-2-statements", cut=False, timeout=350, args=("--no-unwinding-assertions", "--object-bits", "12") + (() if mem else NOMEM[:1]),
                                      bounded="bounded: 2 statements, 2 forward references, 3 dropped characters")])]


# ---- the list of references
REFHDR = "_Bool vp_cleared(long i);"
FAILING = ("--malloc-may-fail", "--malloc-fail-null")


def refjob(name, cut=True, **k):
    return Job(name, ["forward_reference.c", "opcode.c"], "fref_list.c", ["-DZMAX=0x20000000L", "-DVP_STEPPING"] if cut else ["-DZMAX=4L", "-DNOCUT"],
               remove=("destroy_forward_ref",) if cut else (),
               cut=("forward_reference.c", lambda L: 2 if not L.pure and not L.calls else 0, lambda ty, n, L: ["vp_cleared(%s)" % n] if ty in INTS else [], REFHDR) if cut else None,
               unwind=12, args=FAILING, functions=("init_unresolved", "add_forward_ref", "resize_unresolved", "destroy_unresolved"), **k)


def refjobs():
    cands = lambda ty, n, L: [(n, "(%s)vp_tailp()" % ty, "vp_tail(%s)" % n, "-(%s - b)" % n)] if ty in CHARP else []
    return [Job("reference", ["forward_reference.c", "opcode.c"], "fref_create.c", ["-DNATIVE_MEMCPY"], unwind=130, args=FAILING, timeout=300, weight=30,
                cut=("forward_reference.c", lambda L: L.pure and has_ptr(L), cands, "_Bool vp_tail(const char *); const char *vp_tailp(void); extern char b[]; extern int last, len;"),
                functions=("create_forward_ref", "destroy_forward_ref", "init_instruction", "destroy_instruction")),
            refjob("reference-list", timeout=200, weight=10, fallback=[refjob("reference-list-small", cut=False, timeout=200, bounded="bounded: lists of up to 4 places, growing to 8")])]


# ---- the diagnostics
ERRHDR = "_Bool vp_tail(const char *), vp_head(const char *), vp_tab(int, const char *); const char *vp_tailp(void), *vp_headp(void); int vp_col(const char *), vp_printed(void); extern int n_text, n_sp, col, len, last; extern char b[];"


def err_cands(ty, n, L):
    ptrs = [x for x, t in L.mod if t in CHARP]
    if ty in CHARP:
        if L.mask:
            return [(n, "(%s)(b + n_text)" % ty, "%s == b + n_text" % n)] + ["%s <= %s + 1" % (n, q) for q, t in L.seen if t in CHARP]
        return [(n, "(%s)vp_tailp()" % ty, "vp_tail(%s)" % n, "-(%s - b)" % n), (n, "(%s)vp_headp()" % ty, "vp_head(%s)" % n, "%s - b" % n)]
    if ty in INTS:
        if L.mask:
            return ["%s == vp_printed()" % n, "(long)%s + n_sp == col" % n]
        if ptrs:
            return ["%s == vp_col(%s)" % (n, ptrs[0]), "vp_tab(%s, %s)" % (n, ptrs[0])]
    return []


def errjob(name, has, cut=True, **k):
    return Job(name, ["error.c"], "print_error.c", ["-DHAS=%d" % has] + (["-DVP_STEPPING"] if cut else ["-DNOCUT", "-DLINE=12"]),
               cut=("error.c", lambda L: 1 if not L.pure else has_ptr(L), err_cands, ERRHDR) if cut else None,
               unwind=130 if cut else 100, unwindset=[("print_error", None, 10)] if cut else [], functions=("print_error",), **k)


def errjobs():
    return [errjob("print_error/%s" % n, h, weight=30, timeout=300, fallback=[errjob("print_error-short-line/" + n, h, cut=False, timeout=300, bounded="bounded: lines of up to 11 characters")])
            for h, n in enumerate(("general", "line"))]


def jobs_for(prop, tier="quick"):
    j = []
    lex = {"C01": [1], "C03": [0], "C04": [0, 1, 2, 3], "C07": [1], "C12": [0, 1, 2, 3], "C13": [0, 1, 2, 3]}
    if prop in lex:
        j += lexjobs(lex[prop])
    if prop in ("C04", "C05", "C12", "C13"):
        j += linejobs()
    if prop in ("C12", "C13"):
        j += errjobs()
    if prop in ("C09", "C12", "C13"):
        j += refjobs()
    if prop in ("C01", "C02", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13"):
        j += mainjobs(prop == "C13")
    return j


TRUSTED = [
    "CBMC 6.11.0 (goto-cc, goto-instrument, symbolic execution, SAT solver)",
    "clang 18's parser and cbmc/loopcut.py, which insert the loop heads (the program text is otherwise kept byte for byte)",
    "contracts of libc functions written as stubs in cbmc/libc.c and the harnesses (ctype in the C locale, memcpy)",
    "cbmc/spec_table.h, the 6502 instruction table, written from the official documentation",
    "composition of the per-function contracts into the property (argument in DESIGN.md)",
]


def assumptions(prop):
    return ["CHAR_BIT 8, two's complement, x86-64 LP64 data model; machine arithmetic is exact, not mathematical",
            "the line buffer is 128 bytes and NUL-terminated within it (postcondition of main's read_line)"]


def extra_for(prop, tier):
    return None


def counterexample(r, p):
    """sources built from the verifier's counterexample to obligation p"""
    if r.job.name.startswith("lex-") and not r.job.name.startswith("lex-line"):
        rc, out = engine.sh(r.cmd.split(" ") + ["--property", p[0], "--trace"], 300, mem_mb=8000)
        b = {}
        for m in re.finditer(r"^  b\[(\d+)l?l?\]=(-?\d+)", out, re.M):
            b[int(m.group(1))] = int(m.group(2)) & 255
        t = bytes(b.get(i, 0) for i in range(128)).split(b"\0")[0].split(b"\n")[0]
        outs = []
        for pre in (b"", b" LDA ", b" JMP ", b" LDA #", b"L = ", b" .ORG ", b"*= "):
            for post in (b"", b" NOP", b" = $12", b": NOP"):
                outs.append(pre + t + post + b"\n NOP\n")
                outs.append(t[:t.find(b";")] + post + b"\n LDA " + t + b"\n")
        return outs
    return []
