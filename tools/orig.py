#!/usr/bin/env python3
"""Report planted bugs that change lines added by our own fix commits."""
import os, re, subprocess
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
for i in sorted(os.listdir(S)):
    f = None; bad = []; n = 0
    for l in open(f"{S}/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]); continue
        if l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-L", f"{n},{n}", "-l", f], capture_output=True, text=True).stdout
            if not b.startswith("^") and "8a2e96d" not in b[:41]: bad.append((f, n, b[:9]))
        if l[:1] in " -" and not l.startswith("---"): n += 1
    if bad: print(i, bad)
