#!/usr/bin/env python3
"""known_findings.json from the fix: commits of /repo. Which property each one repairs is listed here."""
import json, subprocess
PROP = dict(l.split() for l in """5cfa2df C01
b6b91da C02
1982b0a C01
39f7d4f C11
31e2f52 C11
7e0a428 C20
93b445a C21
bf1be5d C04
ab5bde6 C05
6dd4ee6 C05
5934f99 C03
448bf8a C12
ea7fad4 C11
906be8a C11
e86bb1d C11
ee7dd56 C11
3f8289b C11
fdb4cdd C11
4214bb3 C11
0338c0e C17
7cb68ab C19
5e9c168 C08
774a9a7 C19
8064f82 C17
a1a102d C19
50af5de C09
bf60424 C10
10d0cc1 C10
ed1a3ab C10
6aa1e51 C16
171711c C16
d8dc0f9 C16
779d3bc C14
927a5f4 C12
507ec4a C13
5185c67 C20
acb1fb5 C12
32ac40d C11
c259885 C14
155617e C12
2576129 C11
d1f4cfb C16
cb413c0 C11
9640dcc C11
4ba454d C11
c02f39d C16
193b3cf C16
579b12c C01
a18bd8c C20
190fdb7 C20
b78c4a8 C20
8216c41 C20
9359645 C05
1d4982c C05
f5f0b07 C05
3db0e9f C08
c0c281f C09
f28774c C09
01374e4 C09
e648f03 C19
c9646fb C19
731fad3 C03
e541c80 C05
6b2d9b7 C05
76daade C05
454149f C17
4cb7e0e C11
3ef2fb0 C20
76fdead C15
398a1b5 C15
ee1cbc9 C12
23d09ba C20""".splitlines())
import re
fixed = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if s.startswith("fix:"):
        m = re.search(r"\[(C\d\d)\]", s)
        p = PROP.get(h) or (m and m.group(1))
        if not p:
            raise SystemExit("no property for " + l)
        fixed.append("fixed: property=%s %s %s" % (p, h, s[4:].strip()))
known = json.load(open("/verif/tools/known.json")) if __import__("os").path.exists("/verif/tools/known.json") else []
json.dump({"known": known, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
