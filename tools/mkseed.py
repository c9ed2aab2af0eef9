#!/usr/bin/env python3
"""usage: mkseed.py ID PROPERTY  < text.  Takes the uncommitted change in /repo as the planted bug ID, and a demo
program from stdin; the first lines of stdin are 'needs: ...', 'breaks: ...', then '---', then C source of the demo."""
import json, os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sid, prop = sys.argv[1:3]
txt = sys.stdin.read()
head, src = txt.split("---\n", 1)
h = dict(l.split(": ", 1) for l in head.strip().splitlines())
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff", "-U12", "--", "src", "include"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in /repo"
open(os.path.join(d, "patch.diff"), "w").write(diff)
open(os.path.join(d, "demo.c"), "w").write(src)
shutil.copy(os.path.join(V, "harness", "notls.h"), os.path.join(d, "notls.h"))
json.dump({"property": prop, "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# builds demo.c against the library that build.sh made in /repo and runs it in a scratch directory of its own
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
gcc -g -std=gnu99 -fgnu89-inline -w -D USE_DEBUG -D ENABLE_ASSERTS -fno-strict-aliasing -include "$here/notls.h" -I /repo/include -I /repo/src \\
	"$here/demo.c" -o "$t/demo" -rdynamic -no-pie /repo/built/libevents.a -pthread -latomic -ldl || { rm -rf "$t"; exit 3; }
cd "$t" && timeout %s ./demo >"$t/out" 2>&1 </dev/null
rc=$?
tail -5 "$t/out"
rm -rf "$t"
exit $rc
""" % h.get("timeout", "60"))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
print("seeded", sid)
