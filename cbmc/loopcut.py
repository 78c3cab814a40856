"""Mechanical loop-invariant instrumentation of C source for CBMC.

The source text is kept byte for byte; the only change is that the head of
each selected loop gets, before its condition is evaluated, a statement
expression VP_HEAD which on its first visit asserts the loop invariant,
havocs everything the loop can modify and assumes the invariant, and on its
second visit asserts the invariant (and the variant) and cuts the path.
That is the usual proof rule for loops; together with --unwind 2 for those
loops it covers every number of iterations.

The invariant is: the harness's world invariant (over ghost and model state,
vp_inv_*) and those candidate relations between local variables and ghosts
that are not switched off with -DVPOFF_<loop>_<n>.
"""
import json, os, re, subprocess

CLANG = "/usr/bin/clang-18"


def ast(path, incs, defs=()):
    r = subprocess.run([CLANG, "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", "-std=gnu11", "-D_GNU_SOURCE"]
                       + ["-I" + i for i in incs] + list(defs) + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError("clang: " + r.stderr.decode()[-400:])
    return json.loads(r.stdout)


def off(loc):
    """offset in the main file, and whether it comes from a macro"""
    if "expansionLoc" in loc:
        return loc["expansionLoc"].get("offset"), True
    return loc.get("offset"), False


def kids(n):
    return [c for c in n.get("inner", []) or [] if isinstance(c, dict)]


def walk(n):
    yield n
    for c in kids(n):
        yield from walk(c)


def functions(tree):
    """functions with a body defined in the main file"""
    out = {}
    for n in tree.get("inner", []):
        if n.get("kind") != "FunctionDecl":
            continue
        loc = n.get("loc", {})
        loc = loc.get("expansionLoc", loc)
        if "includedFrom" in loc:
            continue
        if any(c.get("kind") == "CompoundStmt" for c in kids(n)):
            out[n["name"]] = n
    return out


def calls(n):
    s = set()
    for x in walk(n):
        if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") == "FunctionDecl":
            s.add(x["referencedDecl"]["name"])
    return s


def closure(direct, names):
    seen, todo = set(), list(names)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += direct.get(f, ())
    return seen


def modified(loop, inside):
    """variables declared before the loop (or in its init) which it may modify: name -> type"""
    mods, seen = {}, {}

    def rec(n, read):
        k = n.get("kind")
        if k == "DeclRefExpr":
            d = n.get("referencedDecl", {})
            if d.get("kind") in ("VarDecl", "ParmVarDecl") and not read:
                mods.setdefault(d["id"], (d["name"], d.get("type", {}).get("qualType", "")))
            if d.get("kind") in ("VarDecl", "ParmVarDecl"):
                seen[d["id"]] = (d["name"], d.get("type", {}).get("qualType", ""))
            return
        if k == "MemberExpr" and not n.get("isArrow"):
            for c in kids(n):
                rec(c, read)
            return
        for c in kids(n):
            r = k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue"
            rec(c, r)
    rec(loop, False)
    drop = lambda d: {i: v for i, v in d.items() if i not in inside and not (v[1].startswith("const ") and not v[1].endswith("*"))}
    return drop(mods), drop(seen)


def escaping(fn):
    """locals whose address is stored somewhere (not just passed to a call)"""
    esc = {}

    def rec(n, arg):
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&" and not arg:
            for x in walk(n):
                d = x.get("referencedDecl", {}) if x.get("kind") == "DeclRefExpr" else {}
                if d.get("kind") in ("VarDecl", "ParmVarDecl"):
                    esc[d["id"]] = (d["name"], d.get("type", {}).get("qualType", ""))
                    break
        for c in kids(n):
            rec(c, n.get("kind") == "CallExpr" or (arg and n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr")))
    rec(fn, False)
    return esc


def scan_parens(src, p):
    """from the '(' at p: positions of its top-level semicolons and of its ')'"""
    d, semis = 0, []
    while True:
        c = src[p:p + 1]
        if c in (b'"', b"'"):
            p += 1
            while src[p:p + 1] != c:
                p += 2 if src[p:p + 1] == b"\\" else 1
        elif src[p:p + 2] == b"/*":
            p = src.index(b"*/", p) + 1
        elif src[p:p + 2] == b"//":
            p = src.index(b"\n", p)
        elif c == b"(":
            d += 1
        elif c == b")":
            d -= 1
            if d == 0:
                return semis, p
        elif c == b";" and d == 1:
            semis.append(p)
        p += 1


def stmt_end(src, st):
    o, m = off(st["range"]["end"])
    if st.get("kind") == "CompoundStmt" and not m:
        return o + 1
    # a simple statement: up to and including its semicolon
    if src[o:o + 1] in (b";", b"}"):
        return o + 1
    return src.index(b";", o) + 1


PURE = {"isspace", "isblank", "isalpha", "isalnum", "isdigit", "isupper", "islower", "isxdigit", "toupper", "tolower",
        "strchr", "strlen", "strcmp", "strncmp", "memcmp", "strspn", "strcspn"}


def taken(fns):
    """functions of the file that are used other than by calling them"""
    out = set()

    def rec(n, callee):
        if n.get("kind") == "DeclRefExpr" and not callee and n.get("referencedDecl", {}).get("name") in fns:
            out.add(n["referencedDecl"]["name"])
        for i, c in enumerate(kids(n)):
            rec(c, n.get("kind") == "CallExpr" and i == 0 or callee and n.get("kind") in ("ImplicitCastExpr", "ParenExpr"))
    for f in fns.values():
        rec(f, False)
    return out


def pure(node, fns, seen=()):
    """the statement assigns only to plain variables and calls only pure functions"""
    for x in walk(node):
        k = x.get("kind")
        if k in ("BinaryOperator", "CompoundAssignOperator") and (x.get("opcode") == "=" or k != "BinaryOperator") or \
                k == "UnaryOperator" and x.get("opcode") in ("++", "--"):
            l = kids(x)[0]
            while l.get("kind") == "ParenExpr":
                l = kids(l)[0]
            if l.get("kind") != "DeclRefExpr":
                return False
        elif k == "CallExpr":
            c = [d["referencedDecl"]["name"] for d in walk(kids(x)[0])
                 if d.get("kind") == "DeclRefExpr" and d.get("referencedDecl", {}).get("kind") == "FunctionDecl"]
            if not c:
                # through a pointer: any function of the file whose address is taken
                if all(g in seen or pure(fns[g], fns, tuple(seen) + (g,)) for g in taken(fns)):
                    continue
                return False
            c = c[0]
            if c in PURE or c in seen:
                continue
            if c not in fns or not pure(fns[c], fns, tuple(seen) + (c,)):
                return False
    return True


class Loop:
    pass


def find_loops(fn):
    """loops of a function that are written in its text, innermost last"""
    res = []

    def rec(n, depth):
        k = n.get("kind")
        if k in ("WhileStmt", "ForStmt", "DoStmt"):
            b, m1 = off(n["range"]["begin"])
            if not m1:
                res.append((n, depth))
                depth += 1
        for c in kids(n):
            rec(c, depth)
    rec(fn, 0)
    return res


def isconst(fn, vid):
    """every use of the file-scope array reads an element of it"""
    ok = [True]

    def rec(n, chain):
        if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("id") == vid and "LValueToRValue" not in chain:
            ok[0] = False
        c = chain
        if n.get("kind") == "ImplicitCastExpr":
            c = chain | {n.get("castKind")}
        elif n.get("kind") not in ("ArraySubscriptExpr", "MemberExpr", "ParenExpr", "DeclRefExpr"):
            c = frozenset()
        for x in kids(n):
            rec(x, c)
    rec(fn, frozenset())
    return ok[0]


def instrument(path, incs, select, candidates, defs=()):
    """select(fname, calls_in_loop_transitive, all function infos) -> bool.
    candidates(type, name) -> list of C expressions.
    returns (text, loops)"""
    src = open(path, "rb").read()
    tree = ast(path, incs, defs)
    fns = functions(tree)
    direct = {f: calls(n) for f, n in fns.items()}
    ins, loops = [], []
    static = set()
    for n in tree.get("inner", []):
        if n.get("kind") == "VarDecl":
            static.add(n["id"])
    for n in fns.values():
        for x in walk(n):
            if x.get("kind") == "VarDecl" and x.get("storageClass") == "static":
                static.add(x["id"])
        mods, _ = modified(n, set())
        for i, v in mods.items():
            if i in static and 'argp_option' not in v[1] and not (v[1].startswith("const ") or v[1].endswith("]") and isconst(n, i)):
                raise RuntimeError("%s keeps state in the variable %s" % (n["name"], v[0]))
    for f, n in fns.items():
        for idx, (lp, depth) in enumerate(find_loops(n)):
            reach = closure(direct, calls(lp))
            L = Loop()
            L.fn, L.idx, L.id, L.calls, L.depth = f, idx, "%s_%d" % (f, idx), reach, depth
            L.pure = pure(lp, fns)
            kind = lp["kind"]
            ch = lp["inner"]
            begin, _ = off(lp["range"]["begin"])
            body = ch[-1] if kind != "DoStmt" else ch[0]
            # what is declared inside the body is fresh in every iteration
            inside = {x["id"] for x in walk(body) if x.get("kind") == "VarDecl" and x.get("storageClass") != "static"}
            skip = ch[0] if kind == "ForStmt" and ch[0] else None
            scan = dict(lp)
            if skip is not None:
                scan = {"kind": "ForStmt", "inner": ch[1:]}
            mod, seen = modified(scan, inside)
            for i, v in escaping(n).items():
                if i in seen and i not in inside:
                    mod[i] = v
            L.mod = sorted((v for i, v in mod.items() if i not in static), key=lambda v: (not v[1].endswith("*"), v))
            L.seen = sorted(v for i, v in seen.items() if i not in static)
            m = select(L)
            if not m:
                continue
            L.mask = m if type(m) is int else int(not L.pure)
            L.cands = []
            ptr, wit = {}, {}
            for nm, ty in L.mod:
                for c in candidates(ty, nm, L):
                    # an equality of a pointer: (name, expression)
                    if isinstance(c, tuple):
                        if c[0]:
                            ptr[len(L.cands)] = c
                        if len(c) > 3:
                            wit[len(L.cands)] = c[3]
                        c = c[2] if len(c) > 2 else "%s == %s" % c
                    L.cands.append(c)
            hav = ""
            for nm, ty in L.mod:
                if ty.endswith("]"):
                    hav += "__CPROVER_havoc_object(%s); " % nm
                else:
                    hav += "%s{ __typeof__(%s) vp_h; %s = vp_h; } " % ("int vp_as_%s = 0; " % nm if ty.endswith("*") else "", nm, nm)
            ent = wst = asm = decl = ""
            for j, c in enumerate(L.cands):
                o = "VPC(%s_%d, %%s, (%s), \"candidate %s %d: %s\")" % (L.id, j, c, L.id, j, c.replace('"', "'"))
                ent += o % "A" + " "
                if j in ptr:
                    # assigned rather than assumed, so that CBMC knows what it points to
                    asm += "VPP(%s_%d, %s, (%s)) " % (L.id, j, ptr[j][0], ptr[j][1])
                else:
                    asm += o % "S" + " "
                if j in wit:
                    decl += "long vp_w%d = 0; " % j
                    asm += "if (VPON_%s_%d) vp_w%d = %s; " % (L.id, j, j, wit[j])
                    wst += "VPC(%s_%d, A, (%s) > vp_w%d, \"termination of %s: %s grows\") " % (L.id, j, wit[j], j, L.id, wit[j])
            head = ("({ if (!vp_v) { vp_v = 1; VP_ENTRY(%s) %s VP_MID(%s) %s VP_HAVOC(%s) VP_ASSUME(%s) %s } "
                    "else { VP_STEP(%s) %s %s VP_CUT } 0; })" % (L.id, ent, L.id, hav, L.id, L.id, asm, L.id, ent, wst))
            head = head[1:-1] + " "          # ({ ... }) as a block
            pre = "for (int vp_v = 0, vp_o = 1; vp_o; vp_o = 0) { " + decl
            post = " }"
            ins.append((begin, begin, 0, pre))
            if kind in ("WhileStmt", "ForStmt"):
                p = src.index(b"(", begin)
                semis, q = scan_parens(src, p)
                if kind == "WhileStmt":
                    c0, c1 = p + 1, q
                else:
                    c0, c1 = semis[0] + 1, semis[1]
                cond = src[c0:c1].decode("latin1")
                blank = "\n" * cond.count("\n")
                ins.append((c0, c1, 1, ("1" if kind == "WhileStmt" else "") + blank))
                end = stmt_end(src, body)
                ins.append((q + 1, q + 1, 2, " { " + head + ("if (!(%s)) break; " % " ".join(cond.split("\n")) if cond.strip() else "")))
                ins.append((end, end, -depth, " }" + post))
            else:
                bb, _ = off(body["range"]["begin"])
                end = stmt_end(src, body)
                ins.append((bb, bb, 1, "{ " + head + " "))
                ins.append((end, end, -depth, " }"))
                le, _ = off(lp["range"]["end"])
                le = src.index(b";", le) + 1
                ins.append((le, le, -depth, post))
            loops.append(L)
    out, last = [], 0
    for o, e, _, t in sorted(ins, key=lambda x: (x[0], x[2])):
        out.append(src[last:o])
        out.append(t.encode("latin1"))
        last = e
    out.append(src[last:])
    return b"".join(out), loops
