#!/usr/bin/env python3
"""Writes harness/latin_tables.inc: the upper halves of the ISO-8859 parts, from Python's codecs (0 = undefined)."""
import os
parts=[1,2,3,4,9,10,13,14,15]
o=["// generated by tools/mklatin.py from Python's codecs; 0 = not defined in the part"]
o.append("static const unsigned short latinUpper[9][128] = {")
for p in parts:
    row=[]
    for b in range(128,256):
        try: row.append(ord(bytes([b]).decode("iso8859_%d"%p)))
        except UnicodeDecodeError: row.append(0)
    o.append("\t/* ISO-8859-%d */ {%s},"%(p,",".join("0x%x"%v for v in row)))
o.append("};")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"harness","latin_tables.inc"),"w").write("\n".join(o)+"\n")
