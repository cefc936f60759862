#!/usr/bin/env python3
"""Writes src/ucd.inc from the UCD text files (Unicode 17) that ship in
gen_unicode_hpp/.  The output is committed, so that the oracle does not depend
on the tree under test."""
import sys, collections
d = sys.argv[1]
cats = collections.OrderedDict()
fold = []
first = None
for line in open(d + "/UnicodeData.txt"):
    f = line.rstrip("\n").split(";")
    c = int(f[0], 16)
    if f[1].endswith(", First>"):
        first = c
        continue
    lo = first if f[1].endswith(", Last>") else c
    first = None
    cats.setdefault(f[2], []).append((lo, c))
    if f[2] == "Ll" and f[12]:
        fold.append((c, int(f[12], 16)))
    if f[2] == "Lu" and f[13]:
        fold.append((c, int(f[13], 16)))
scripts = collections.OrderedDict()
for line in open(d + "/Scripts.txt"):
    line = line.split("#")[0].strip()
    if not line:
        continue
    r, n = [x.strip() for x in line.split(";")]
    a, _, b = r.partition("..")
    scripts.setdefault("Is" + n, []).append((int(a, 16), int(b or a, 16)))
blocks = collections.OrderedDict()
for line in open(d + "/Blocks.txt"):
    line = line.split("#")[0].strip()
    if not line:
        continue
    r, n = [x.strip() for x in line.split(";")]
    a, _, b = r.partition("..")
    blocks["In" + n.replace(" ", "_")] = [(int(a, 16), int(b, 16))]


def merge(v):
    out = []
    for a, b in sorted(v):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


print("// generated by tools/gen_ucd.py from the UCD 17.0 files")
print("static const unsigned fold_table[][2] = {")
print(",\n".join("{0x%x,0x%x}" % p for p in fold))
print("};")
allp = []
data = []
for kind, m in ((0, cats), (1, scripts), (2, blocks)):
    for n, v in sorted(m.items()):
        v = merge(v)
        allp.append((n, kind, len(data), len(v)))
        data += v
print("static const unsigned range_table[][2] = {")
print(",\n".join("{0x%x,0x%x}" % p for p in data))
print("};")
print("struct prop_entry { const char* name; int kind; unsigned at, n; };")
print("static const prop_entry prop_table[] = {")
print(",\n".join('{"%s",%d,%d,%d}' % p for p in allp))
print("};")
