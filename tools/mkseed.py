#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from a spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], SPVM (class
Demo whose static method main returns 1 when everything is right) or DEMO (a shell script)."""
import sys, os, json, subprocess, tempfile, shutil
V = "/verif"
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g); d = f"{V}/seeded/{g['ID']}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); out = ""
    for file, old, new in g["EDITS"]:
        s = open(f"/repo/{file}").read(); assert s.count(old) == 1, (g["ID"], file, s.count(old), old)
    files = {}
    for file, old, new in g["EDITS"]: files[file] = files.get(file, open(f"/repo/{file}").read()).replace(old, new)
    for file, s in files.items():
        os.makedirs(f"{t}/a/{os.path.dirname(file)}", exist_ok=True); os.makedirs(f"{t}/b/{os.path.dirname(file)}", exist_ok=True); shutil.copy(f"/repo/{file}", f"{t}/a/{file}"); open(f"{t}/b/{file}", "w").write(s)
        out += subprocess.run(["diff", "-U20", f"a/{file}", f"b/{file}"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    out = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in out.split("\n"))
    open(d + "/patch.diff", "w").write(out); shutil.rmtree(t)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if g.get("DEMO"): open(d + "/demo.sh", "w").write(g["DEMO"])
    else:
        open(d + "/Demo.spvm", "w").write(g["SPVM"]); extra = g.get("EXTRA", {})
        for n, c in extra.items(): os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True); open(f"{d}/{n}", "w").write(c)
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs Demo->main with the built SPVM; it returns 1 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p $t/SPVM; cp -r $d/*.spvm $t/SPVM/; [ -d $d/SPVM ] && cp -r $d/SPVM/. $t/SPVM/
cat > $t/t.pl <<'P'
use strict; use warnings; use lib $ENV{DEMO_DIR}; use SPVM 'Demo';
my $r = SPVM::Demo->main; print "main returned $r\\n"; exit($r == 1 ? 0 : 1);
P
export DEMO_DIR=$t SPVM_BUILD_DIR=$t/.spvm_build
cd /repo && timeout 200 perl -Mblib=/repo/blib $t/t.pl
''')
    os.chmod(d + "/demo.sh", 0o755); print(g["ID"], len(out.splitlines()), "patch lines")
