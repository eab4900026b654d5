"""Mutation sampling: mutate.py ID N SEED FILE... applies N random small changes (one at a time) to the named sources in a
scratch copy of /repo, rebuilds property ID's check incrementally against it and runs the quick check; lists survivors."""
import os, random, re, shutil, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
pid, N, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
SH = float(os.environ.get("SHARE", "0.3"))
W = Path("/tmp/mut") / pid
T, VV = W / "repo", W / "v"
shutil.rmtree(W, ignore_errors=True); W.mkdir(parents=True)
subprocess.run(["cp", "-a", "/repo", str(T)], check=True)
VV.mkdir()
for x in ["engine", "harness", "shim", "fake", "run.py", "checks.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"]:
    subprocess.run(["cp", "-r", str(V / x), str(VV)], check=True)
(VV / "evidence").mkdir()
c = (VV / "checks.py").read_text()
c += "\nfor k in CHECKS: CHECKS[k]['cases'] = int(CHECKS[k]['cases'] * %g); CHECKS[k].pop('fuzz', None)\n" % SH
(VV / "checks.py").write_text(c)
env = dict(os.environ, INK_REPO=str(T))


def run():
    t = time.time()
    try:
        r = subprocess.run(["python3", "run.py", pid, "quick"], cwd=VV, env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", str(VV)]); return "timeout", "", time.time() - t
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    return r.returncode, (v[0] if v else ""), time.time() - t


def sub1(l, pat, rep, rnd):
    ms = list(re.finditer(pat, l))
    if not ms: return None
    m = rnd.choice(ms)
    return l[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + l[m.end():]


def num(m):
    s = m.group(0)
    f = "f" if s.endswith("f") else ""
    v = s.rstrip("f")
    if "." in v: return {"0": "1"}.get(v.rstrip("0").rstrip("."), "(%s * 1.5" % v) + ("" if v.rstrip("0").rstrip(".") == "0" else f + ")") + (".f" if v.rstrip("0").rstrip(".") == "0" and f else "")
    return str(int(v) + 1) if v.isdigit() else s


OPS = [
    ("rel", lambda l, r: sub1(l, r" (<=|>=|==|!=|<|>) ", lambda m: " %s " % r.choice({"<": ["<=", ">"], "<=": ["<", ">"], ">": [">=", "<"], ">=": [">", "<"], "==": ["!="], "!=": ["=="]}[m.group(1)]), r)),
    ("add", lambda l, r: sub1(l, r"(?<=[\w\)\]]) (\+|-) (?=[\w\(])", lambda m: " - " if m.group(1) == "+" else " + ", r)),
    ("mul", lambda l, r: sub1(l, r"(?<=[\w\)\]]) (\*|/) (?=[\w\(])", lambda m: " / " if m.group(1) == "*" else " * ", r)),
    ("log", lambda l, r: sub1(l, r"&&|\|\|", lambda m: "||" if m.group(0) == "&&" else "&&", r)),
    ("num", lambda l, r: sub1(l, r"(?<![\w.\"])\d+(\.\d*)?f?(?![\w.\"])", num, r)),
    ("if", lambda l, r: sub1(l, r"\bif \((?!constexpr)(.*)\) (\{|return|continue|break)", lambda m: "if (%s) %s" % (r.choice(["!(" + m.group(1) + ")", "false && (" + m.group(1) + ")"]), m.group(2)), r)),
    ("del", lambda l, r: (re.sub(r"\S.*", ";", l) if re.match(r"\s+[a-z_]\w*(\.|->|\(|\[|_? (=|\+=|-=|\*=) |_? (=|\+=|-=|\*=)).*;$", l) and not re.match(r"\s+(return|break|continue|delete|using|auto|const)\b", l) else None)),
    ("minmax", lambda l, r: sub1(l, r"std::(min|max)\b", lambda m: "std::" + ("max" if m.group(1) == "min" else "min"), r)),
    ("xy", lambda l, r: sub1(l, r"\.(x|y)\b", lambda m: ".y" if m.group(1) == "x" else ".x", r)),
    ("swap", lambda l, r: sub1(l, r"\b(left|right|first|last|start|end|front|back|begin|lower|upper|[xy]_max|[xy]_min)\b", lambda m: {"left": "right", "right": "left", "first": "last", "last": "first", "start": "end", "end": "start", "front": "back", "back": "front", "begin": "end", "lower": "upper", "upper": "lower", "x_max": "x_min", "x_min": "x_max", "y_max": "y_min", "y_min": "y_max"}[m.group(1)], r)),
    ("inc", lambda l, r: sub1(l, r" [+-] 1\b", "", r)),
    ("ret", lambda l, r: sub1(l, r"return (true|false);", lambda m: "return %s;" % ("false" if m.group(1) == "true" else "true"), r)),
    ("sign", lambda l, r: sub1(l, r"(?<=[=(,] )-(?=[\w(])", "", r)),
    ("brk", lambda l, r: sub1(l, r"^\s+break;$", ";", r)),
]
rnd = random.Random(seed)
print(pid, "clean:", run(), flush=True)
kill = surv = 0
seen = set()
tries = 0
while kill + surv < N and tries < N * 60:
    tries += 1
    f = rnd.choice(files); p = T / f; t = p.read_text(); ls = t.split("\n")
    i = rnd.randrange(len(ls)); l = ls[i]
    if re.match(r"\s*(//|#|\*)", l) or not l.strip() or "Check" in l or "CHECK" in l or "Status" in l or '"' in l or "StrCat" in l or "StrFormat" in l: continue
    name, op = rnd.choice(OPS)
    n = op(l, rnd)
    if n is None or n == l or (f, i, n) in seen: continue
    seen.add((f, i, n))
    ls[i] = n; p.write_text("\n".join(ls))
    rc, v, dt = run()
    p.write_text(t)
    if rc == 2: continue
    if rc == 0:
        surv += 1
        print("SURVIVED %s %s:%d %.0fs\n   - %s\n   + %s" % (name, f, i + 1, dt, l.strip(), n.strip()), flush=True)
    else:
        kill += 1
        print("killed %s %s:%d rc=%s %.0fs | %s" % (name, f, i + 1, rc, dt, n.strip()[:70]), flush=True)
print(pid, "killed", kill, "survived", surv, flush=True)
shutil.rmtree(W, ignore_errors=True)
