#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the real C code with CBMC (function contracts, loop invariants, exact unwinding)"
NOTE = {
 "C03": "Proved for every line content: lex's contract on literals (value of the digits, rejection, end) against a digit-by-digit spec, scanning loop cut at an inductive invariant. Trusted: CBMC, ctype stubs.",
 "C04": "Proved for every line content: lex's contract for each class of first character, and lex_line over that contract for every number of tokens. Trusted: CBMC, ctype stubs, composition of the two contracts.",
 "C01": "Opcode, operand bytes and rejection proved against the documented 6502 table for every mnemonic and mode; mnemonic recognition proved of lex. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C02": "Selected mode proved for every operand form and value. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C05": "Acceptance proved equal to the statement grammar for every token sequence; lex_line hands over exactly the line's tokens. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C07": "Binding, redefinition and use proved for an arbitrary label through any number of statements. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C08": "Displacements, range rejection, addresses and forward patches proved. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C09": "Recording and resolution of an arbitrary reference proved for any number of references. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C10": "The output is proved at an arbitrary offset; location counter, totals and limits proved. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C11": "Exit status, message and diagnostics proved for any failing stdio call. main.c, parser.c, generator.c, opcode.c and assemble.c proved together, main's loops cut at invariants, for any number of lines and labels; lexer, symbol table, reference list and stdio are contracts there.",
 "C12": "print_error proved to print file, number, trimmed line and a marker under the offending character for every line; line counting, the saved line of a reference and every call of print_error proved in main and the parser; offending positions proved of lex and lex_line. stdio is a contract; the text of each message is not examined.",
}
NA = {}
claimed = []
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
                       "technique": TECH, "level": "proof", "level_note": NOTE[i]})
    else:
        NA.setdefault(i, "not built yet")
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
