#!/usr/bin/env python3
"""Builds one property's harness from /repo's current tree and runs it.

usage: run.py ID quick|thorough        (VERIF_SEED picks the random stream, default 1)
       run.py ID replay FILE           (re-runs a saved failing case: exit 1 when it still fails)
       run.py ID build [--fuzz]

Exit 0: held on everything explored. Exit 1: violation, with a VIOLATION line. Anything else is an
error of the check itself (for example: the tree does not compile).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent
R = Path(os.environ.get("INK_REPO", "/repo"))
sys.path.insert(0, str(V))
from checks import CHECKS  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 8))
JNI = "/usr/lib/jvm/java-17-openjdk-amd64/include"
SAN = "-fsanitize=address,undefined -fno-sanitize=enum,float-cast-overflow,float-divide-by-zero,vptr -fno-sanitize-recover=all".split()


def flags(cfg, fuzz):
    f = ["-std=c++20", cfg.get("opt", "-O1"), "-gline-tables-only", "-fno-omit-frame-pointer", "-Wno-everything",
         "-I", str(V / "fake"), "-I", str(R), "-I", str(V), "-I", str(V / "shim"), "-I", JNI, "-I", JNI + "/linux"]
    f += SAN
    if fuzz:
        f += ["-fsanitize=fuzzer-no-link", "-DINK_PBT_FUZZER"]
    f += cfg.get("flags", [])
    return f


def closure(src, seen):
    """Every ink source reachable by following quoted includes (x.h brings in x.cc)."""
    for inc in re.findall(r'^\s*#\s*include\s+"((?:ink|harness)/[^"]+)\.h"', src.read_text(errors="replace"), re.M):
        for base in (R, V):
            for ext in (".h", ".cc"):
                p = base / (inc + ext)
                if p.exists() and p not in seen:
                    seen.add(p)
                    closure(p, seen)
    return seen


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build(pid, fuzz=False):
    cfg = CHECKS[pid]
    bdir = V / "build" / ("fuzz" if fuzz else "pbt")
    bdir.mkdir(parents=True, exist_ok=True)
    srcs = {V / "engine" / "driver.cc"}
    for h in cfg["harness"]:
        p = V / "harness" / h
        srcs.add(p)
        srcs |= {q for q in closure(p, set()) if q.suffix == ".cc"}
    for s in cfg.get("sources", []):
        srcs.add(R / s)
        srcs |= {q for q in closure(R / s, set()) if q.suffix == ".cc"}
    srcs = {s for s in srcs if not any(s.match(x) for x in cfg.get("exclude", []))}
    fl = flags(cfg, fuzz)
    key = re.sub(r"\W+", "_", " ".join(cfg.get("flags", []) + [cfg.get("opt", "")])).strip("_")
    ninja = ["ninja_required_version = 1.5",
             "rule cc", "  command = clang++ %s -MD -MF $out.d -c $in -o $out" % " ".join(fl), "  depfile = $out.d", "  deps = gcc",
             "rule ld", "  command = clang++ %s %s $in -o $out -lpthread" % (" ".join(SAN), "-fsanitize=fuzzer" if fuzz else "")]
    objs = []
    for s in sorted(srcs):
        rel = s.relative_to(R if s.is_relative_to(R) else V)
        o = bdir / ("obj" + key) / ("repo" if s.is_relative_to(R) else "verif") / (str(rel) + ".o")
        objs.append(str(o))
        ninja.append("build %s: cc %s" % (o, s))
    exe = bdir / pid
    ninja.append("build %s: ld %s" % (exe, " ".join(objs)))
    nf = bdir / ("%s.ninja" % pid)
    nf.write_text("\n".join(ninja) + "\n")
    r = sh(["ninja", "-f", str(nf), "-j", str(JOBS), "-C", str(bdir), str(exe)])
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        print("ERROR: the harness of %s does not build against this tree" % pid)
        sys.exit(2)
    return exe


def known(pid):
    out = []
    for l in (V / "known_findings.txt").read_text().splitlines() if (V / "known_findings.txt").exists() else []:
        m = re.match(r"open: property=(\w+) (.*)", l)
        if m and m.group(1) == pid:
            out.append(m.group(2))
    return out


def fuzz_phase(pid, exe, seed, seconds, work):
    """Coverage-guided search over the same bodies; crashes come back as choice sequences."""
    fz = build(pid, fuzz=True)
    corpus = Path(work) / "corpus"
    corpus.mkdir()
    stat = {"seconds": seconds, "executions": 0}
    procs = []
    for j in range(JOBS):
        d = Path(work) / ("f%d" % j)
        d.mkdir()
        env = dict(os.environ, INK_PBT_FUZZ_OUT=str(d / "crash"))
        procs.append((d, subprocess.Popen([str(fz), str(corpus), "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-max_len=2048",
                                           "-len_control=20", "-timeout=300", "-rss_limit_mb=0", "-print_final_stats=1", "-reload=1",
                                           "-artifact_prefix=%s/" % d], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=open(d / "log", "w"))))
    hits = []
    for d, p in procs:
        try:
            p.wait(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", (d / "log").read_text(errors="replace"))
        if m:
            stat["executions"] += int(m.group(1))
        hits += sorted(d.glob("crash.*"))
    stat["corpus"] = len(list(corpus.iterdir()))
    for h in hits:
        dst = V / "build" / "replays" / ("%s-fuzz-%d.replay" % (pid, seed))
        r = sh([str(exe), "shrink", str(h), "--to", str(dst)])
        if r.returncode == 1:
            return stat, (dst, r.stdout.strip())
    return stat, None


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    cfg = CHECKS[pid]
    if tier == "build":
        print(build(pid, "--fuzz" in sys.argv))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build(pid)
    if tier == "replay":
        r = sh([str(exe), "replay", sys.argv[3]])
        print(r.stdout, r.stderr)
        return 1 if r.returncode == 1 else 0
    tbuild = time.time() - t0
    rdir = V / "build" / "replays"
    rdir.mkdir(parents=True, exist_ok=True)
    n = cfg["cases"] * (1 if tier == "quick" else cfg.get("factor", 12))
    wall = cfg.get("wall", 150) if tier == "quick" else 420
    work = tempfile.mkdtemp(prefix="inkcheck.")
    violations = []
    try:
        out = os.path.join(work, "out.json")
        r = sh([str(exe), "run", "--seed", str(seed), "--cases", str(n), "--wall", str(wall), "--jobs", str(JOBS), "--out", out,
                "--replays", str(rdir), "--id", pid])
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            sys.stderr.write(r.stderr[-3000:])
            print("ERROR: the driver of %s failed (exit %d)" % (pid, r.returncode))
            return 2
        data = json.load(open(out))
        # saved regression cases, when there are any
        reg = 0
        for f in sorted((V / "regress").glob(pid + "-*.replay")):
            q = sh([str(exe), "replay", str(f), "--quiet", "1"])
            reg += 1
            if q.returncode == 1 and all(sh([str(exe), "replay", str(f), "--quiet", "1"]).returncode == 1 for _ in range(2)):
                data["violations"].append({"sub": "regress", "tag": f.name, "msg": q.stdout.strip(), "replay": str(f)})
        fstat = None
        if tier != "quick" and not data["violations"] and cfg.get("fuzz", True):
            fstat, hit = fuzz_phase(pid, exe, seed, cfg.get("fuzz_seconds", 200), work)
            if hit:
                data["violations"].append({"sub": "fuzz", "tag": "", "msg": hit[1], "replay": str(hit[0])})
        violations = data["violations"]
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for v in violations:
            print("  " + v["msg"])
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        samples = [s["name"] + " " + x for s in data["subs"] for x in s["samples"]][:40]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": data["cases"] + (fstat["executions"] if fstat else 0) + reg,
                "distinct_nontrivial": data["distinct_nontrivial"],
                "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in data["subs"]),
                "samples": samples,
                "per_clause": [{k: s[k] for k in ("name", "cases", "discarded", "distinct_nontrivial", "labels")} for s in data["subs"]],
                "unreproduced": data["unreproduced"],
                "fuzzing": fstat, "regression_cases": reg, "build_s": round(tbuild, 1),
            },
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
            "assumptions": cfg.get("assumptions", []) + [
                "abseil is replaced by the stand-in headers in /verif/shim (ink's own unit tests pass on them)"],
        }
        (V / "evidence").mkdir(exist_ok=True)
        (V / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1))
        print("%s %s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)%s" % (
            pid, tier, ev["coverage"]["evaluations"], data["distinct_nontrivial"], ev["wall_s"], tbuild, " -- VIOLATED" if violations else ""))
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
