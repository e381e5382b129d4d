"""DESIGN.md = DESIGN.head.md + table of planted bugs.  python tools/mkdesign.py TRYLOG"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for log in sys.argv[1:]:
    for line in open(log):
        if " C" in line and "rc=" in line:
            i, p = line.split()[:2]
            res[i] = (p.rstrip(":"), "CAUGHT" in line)
out = [open(V + "/DESIGN.head.md").read().rstrip() + "\n"]
out.append("""
Each was written from the text of a property and the code, builds, passes the stable tests, and has a demonstration that
fails only with it. `caught` means the quick check of its property exits 1 with a VIOLATION line. Bugs missed at first
led to: S/K/W shards and gradient magnitudes (C01-C04), set_xc and integer starts (C05), magnitudes and shallow pairs (C06), exact boundaries (C03),
large scales (C12), scales and pivots products (C13, C21), unit systems (C14), long and grazing filters (C17), root moduli (C19), end-to-end runs (C22), dense gradients in high dimension (C01-C04), one caller array moved in place (C14-C17), small sets (C12), extreme amounts (C15, C16), actors of larger size (C20), thin slabs, long central rounds and dimension 36 (C01, C02), arrays reused by the caller (C03, C05), lassos (C07-C09), larger systems (C13, C14, C18, C21), near ties (C16), one-frequency transitions (C17), padded responses (C19), large uncertainty (C22), ill-conditioned systems (C18), graded matrices (C13).

| planted bug | check | result | needs |
|---|---|---|---|
""")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    r = res.get(i)
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], "?" if not r else "caught" if r[1] else "missed", m["needs"].replace("|", "/")))
open(V + "/DESIGN.md", "w").write("".join(out))
