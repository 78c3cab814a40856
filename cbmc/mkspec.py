#!/usr/bin/env python3
"""writes spec_table.h: the official 6502 instruction set as a C table"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "replay"))
import refasm
o = ["/* official 6502 instruction set; -1 = the mode does not exist for the mnemonic */",
     "/* columns: " + " ".join(refasm.MODES) + " */",
     "static const short SPEC_OPC[56][13] = {"]
for m in sorted(refasm.OPC):
    o.append("[%s] = {%s}," % (m, ", ".join("0x%02X" % refasm.OPC[m][k] if k in refasm.OPC[m] else "-1" for k in refasm.MODES)))
o.append("};")
o.append("static const char SPEC_NAME[56][4] = {" + ", ".join('[%s] = "%s"' % (m, m) for m in sorted(refasm.OPC)) + "};")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_table.h"), "w").write("\n".join(o) + "\n")
