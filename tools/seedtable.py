"""Writes the table of planted bugs into DESIGN.md (documentation only; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# those the checks missed when they were planted
MISSED = """L03-kill-alias L01-shift-pair L02-continue-do L04-argcopy L05-string-nul L06-zero-minus A02-hash-only A02-local-prefix A03-argofs A05-locals
A05-seg-order A06-chain-head A06-list-comment A01-arg-count P01-builtin-ifdef P02-cmp-space P02-undef-args P03-octal-esc P03-shift-unsigned
P04-splice-bound P04-out-flush L08-outfile-asm""".split() + [l.strip() for l in open(V + "/seeded-vm/MISSED") if l.strip()]
rows = ["| bug | caught by | what it breaks | at first |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")) + sorted(glob.glob(V + "/seeded-vm/*/")):
    m = json.load(open(d + "meta.json"))
    n = os.path.basename(d[:-1])
    rows.append("| %s%s | %s | %s | %s |" % (n, " (vm)" if "seeded-vm" in d else "", m["property"], m["what_it_breaks"].replace("|", "/"),
                                       "missed" if n in MISSED else "caught"))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- end -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
