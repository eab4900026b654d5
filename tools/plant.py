"""Makes planted bugs: plant(id, prop, needs, breaks, edits, demo) writes seeded/<id>/ and confirms the demonstration
passes on the clean tree and fails with the change (in a scratch copy). Run on a file of plant() calls: plant.py FILE"""
import json, os, re, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
W = Path("/tmp/seed/w")
DEMO_SH = r'''#!/bin/bash
# Builds demo.cc against the sources in the current directory (stand-ins for absent libraries lie beside this file).
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRC=$(python3 - "$D" <<'P'
import re, sys
from pathlib import Path
d = Path(sys.argv[1]); seen = set(); cc = []; todo = [d / "demo.cc"]
while todo:
    s = todo.pop()
    for inc in re.findall(r'^\s*#\s*include\s+"([^"]+)\.h"', s.read_text(errors="replace"), re.M):
        for base in (Path("."), d / "shim"):
            for ext in (".h", ".cc"):
                p = base / (inc + ext)
                if p.exists() and p not in seen:
                    seen.add(p); todo.append(p)
                    if ext == ".cc": cc.append(str(p))
print(" ".join(cc))
P
)
J=/usr/lib/jvm/java-17-openjdk-amd64/include
CXX=clang++; command -v clang++ >/dev/null || CXX=g++
i=0; for s in "$D/demo.cc" $SRC EXTRA; do i=$((i+1)); echo "$i $s"; done |
  xargs -P 8 -L 1 sh -c "exec $CXX -std=c++20 -O1 -w FLAGS -I. -I'$D/shim' -I'$D' -I$J -I$J/linux -c \$1 -o $T/\$0.o" || { echo "does not compile"; exit 3; }
$CXX FLAGS $T/*.o -o $T/demo -lpthread || exit 3
timeout 200 $T/demo; RC=$?
[ $RC = 0 ] && echo "demonstration passes" || echo "demonstration fails ($RC)"
exit $RC
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''


def shim_closure(demo, repo):
    seen, out, todo = set(), set(), [demo]
    while todo:
        s = todo.pop()
        for inc in re.findall(r'^\s*#\s*include\s+"([^"]+)\.h"', s.read_text(errors="replace"), re.M):
            for base in (repo, V / "shim", V / "fake"):
                for ext in (".h", ".cc"):
                    p = base / (inc + ext)
                    if p.exists() and p not in seen:
                        seen.add(p); todo.append(p)
                        if base != repo: out.add((p, p.relative_to(base)))
    return out


def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)


def plant(id, prop, needs, breaks, edits, demo, extra="", flags="", files=()):
    if ONLY and id not in ONLY: return
    if not W.exists():
        sh(["git", "-C", "/repo", "worktree", "prune"]); sh(["cp", "-a", "/repo", str(W)])
    sh(["git", "-C", str(W), "fetch", "-q", "/repo", "HEAD"]); sh(["git", "-C", str(W), "reset", "-q", "--hard", "FETCH_HEAD"])
    d = V / "seeded" / id
    shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    (d / "demo.cc").write_text(HEAD + demo)
    for p, rel in shim_closure(d / "demo.cc", W):
        q = d / "shim" / rel; q.parent.mkdir(parents=True, exist_ok=True); shutil.copy(p, q)
    for f in files: shutil.copy(V / f, d)
    (d / "demo.sh").write_text(DEMO_SH.replace("EXTRA", extra).replace("FLAGS", flags)); os.chmod(d / "demo.sh", 0o755)
    r0 = sh([str(d / "demo.sh")], cwd=W)
    for f, old, new in edits:
        p = W / f; t = p.read_text()
        if t.count(old) != 1: print(id, "BAD EDIT", f, t.count(old)); shutil.rmtree(d); return
        p.write_text(t.replace(old, new))
    diff = sh(["git", "-C", str(W), "diff"]).stdout
    (d / "patch.diff").write_text(diff)
    r1 = sh([str(d / "demo.sh")], cwd=W)
    # lines must be ones of the original tree
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    own = []
    for f, old, new in edits:
        b = sh(["git", "-C", "/repo", "show", f"{base}:{f}"]).stdout
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in b.splitlines() and not any(l[1:] in sh(["git", "-C", "/repo", "show", f"{base}:{g}"]).stdout.splitlines() for g, _, _ in edits): own.append(l)
    sh(["git", "-C", str(W), "checkout", "-q", "--", "."])
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    ok = r0.returncode == 0 and r1.returncode not in (0, 3)
    print(id, "ok" if ok and not own else "NOT OK", r0.returncode, r1.returncode, r1.stdout.strip().replace("\n", " | ")[-120:], own[:2])
    if not ok:
        print(r0.stdout[-800:], r0.stderr[-1500:], r1.stderr[-600:])


ONLY = set(sys.argv[2:])
exec(open(sys.argv[1]).read())
