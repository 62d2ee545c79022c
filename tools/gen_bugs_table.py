#!/usr/bin/env python3
"""Writes the list of planted bugs into DESIGN.md (between the heading of section 6 and section 7)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "C14-half-hash": "forged commitments that agree with the right ones in a prefix",
    "C21-long-request": "requests beyond 64 KiB",
    "C08-digest-of-same-buffer": "tampering in place right after a valid use, long messages",
    "C21-carry-24": "entropy solved for so that the counter is before a carry",
    "C20-multiply-early-end": "`C20_parts`, `C20_prove`: pairs of structured secrets for each part",
}
try: MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"))))
except FileNotFoundError: pass
out = []
for base in ("seeded", "extra_bugs"):
    for b in sorted(os.listdir(os.path.join(V, base))):
        m = json.load(open(os.path.join(V, base, b, "meta.json")))
        n = m["needs"].replace("\n", " ")
        out.append("- `%s%s` – %s%s" % ("extra_bugs/" if base != "seeded" else "", b, n,
                                        ". (missed) Now: %s" % MISSED[b] if b in MISSED else ""))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
h = "<!-- bugs -->\n"
if h not in s: s = s.rstrip("\n") + "\n\n" + h + h
a, _, c = s.split(h)
open(p, "w").write(a + h + "\n".join(out) + "\n" + h + c)
