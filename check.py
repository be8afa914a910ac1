#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   - decide one property on /repo's current working tree
   check.py --replay <file>               - re-run one recorded violation
   check.py --setup                       - build everything

Builds /repo/src from its current working tree, runs the property's exhaustive exploration, replays
every violation it reports, and writes evidence/<id>.json."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CC = "gcc"
sys.path.insert(0, MC)
from properties import CHECKS  # noqa: E402

VARIANTS = {
    # name: (flags for /repo, flags for the harness, link flags)
    "asan": (["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"], ["-O1", "-g", "-fsanitize=address"],
             ["-fsanitize=address"]),
    "plain": (["-O2", "-g"], ["-O2", "-g"], []),
}
WRAPS = ["exit"]
ENV = dict(os.environ, LC_ALL="C", TERM="dumb",
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
                        ":malloc_context_size=5:symbolize=0:quarantine_size_mb=32:handle_abort=1",
           ASAN_SYMBOLIZER_PATH="")


def die(msg):
    print("CHECK CANNOT RUN: " + msg, flush=True)
    sys.exit(2)


def sources():
    res = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h")):
                res.append(os.path.join(d, f))
    return res


def tree_hash(extra):
    h = hashlib.sha256()
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in sorted(os.listdir(MC)):
        if f.endswith((".c", ".h")):
            h.update(f.encode() + open(os.path.join(MC, f), "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:16]


def run_cc(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stderr[-3000:])


class Build:
    """All objects for one content of /repo/src and /verif/mc live in one directory."""

    def __init__(self):
        self.dir = os.path.join(BUILD, tree_hash(repr(VARIANTS)))
        os.makedirs(BUILD, exist_ok=True)
        # keep only the newest few builds
        old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                     if os.path.isdir(os.path.join(BUILD, d)))
        for _, d in old[:-6]:
            if os.path.join(BUILD, d) != self.dir:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self.lock = open(os.path.join(self.dir, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        dirs = sorted({os.path.dirname(f) for f in sources()})
        self.inc = ["-I" + d for d in dirs] + ["-I" + os.path.join(REPO, "src")]
        self.pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4)

    def done(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def compile(self, jobs):
        """jobs: list of (object, command); existing objects are reused (content-addressed directory)"""
        todo = []
        for o, cmd in jobs:
            if not os.path.exists(o):
                os.makedirs(os.path.dirname(o), exist_ok=True)
                todo.append((o, cmd))

        def one(j):
            o, cmd = j
            tmp = o + ".tmp.o"
            run_cc(cmd + ["-o", tmp])
            os.rename(tmp, o)
        list(self.pool.map(one, todo))

    def repo_objects(self, variant, with_main=False, readline=False, install="."):
        flags = VARIANTS[variant][0]
        tag = variant + ("-rl" if readline else "") + ("-m" if with_main else "") + ("" if install == "." else "-i")
        jobs = []
        for f in sources():
            if not f.endswith(".c"):
                continue
            rel = os.path.relpath(f, os.path.join(REPO, "src"))
            if rel == "client/main.c" and not with_main:
                continue
            o = os.path.join(self.dir, tag, rel + ".o")
            cmd = [CC, "-std=c99", "-w", f'-DINSTALL_PATH="{install}"'] + (["-DUSE_READLINE"] if readline else []) \
                + flags + self.inc + ["-c", f]
            jobs.append((o, cmd))
        return jobs

    def harness(self, name, variant, extra_src=(), wraps=(), defs=()):
        """links mc/<name>.c with the framework and all of /repo/src except main.c"""
        jobs = self.repo_objects(variant)
        hobjs = []
        for src in ["mc.c", "ref.c", name + ".c"] + list(extra_src):
            o = os.path.join(self.dir, "h-" + variant, src + ("-" + name if src == name + ".c" else "") + ".o")
            hobjs.append((o, [CC, "-std=gnu11", "-Wall", "-Wno-format-truncation", "-Wno-unused-result"] + list(defs) + VARIANTS[variant][1]
                          + self.inc + ["-I" + MC, f'-DREPO="{REPO}"', "-c", os.path.join(MC, src)]))
        self.compile(jobs + hobjs)
        exe = os.path.join(self.dir, name + "-" + variant)
        if not os.path.exists(exe):
            w = ["-Wl," + ",".join("--wrap=" + x for x in WRAPS + list(wraps))]
            run_cc([CC] + [o for o, _ in hobjs] + [o for o, _ in jobs] + VARIANTS[variant][2] + w
                   + ["-lm", "-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
        return exe

    def ccalc(self, variant="asan", readline=False, install="."):
        """the real program, from the current tree"""
        jobs = self.repo_objects(variant, with_main=True, readline=readline, install=install)
        self.compile(jobs)
        exe = os.path.join(self.dir, "ccalc-" + variant + ("-rl" if readline else "") + ("" if install == "." else "-i"))
        if not os.path.exists(exe):
            run_cc([CC] + [o for o, _ in jobs] + VARIANTS[variant][2] + ["-lm"] + (["-lreadline"] if readline else [])
                   + ["-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
        return exe


def unesc(s):
    def f(m):
        c = m.group(1)
        return {"n": "\n", "t": "\t", "\\": "\\"}.get(c) or chr(int(c[1:], 16))
    return re.sub(r"\\(n|t|\\|x[0-9a-f]{2})", f, s)


def build_all(props):
    b = Build()
    try:
        return build_for(b, props)
    finally:
        b.done()


def build_for(b, props):
    exes = {}
    for p in props:
        c = CHECKS[p]
        if c.get("ccalc"):
            for kw in c["ccalc"]:
                b.ccalc(**kw)
        exes[p] = [b.harness(h["name"], h.get("variant", "asan"), h.get("extra_src", ()), h.get("wraps", ()), h.get("defs", ()))
                   for h in c["harness"]]
    return exes, b.dir


def harness_env(bdir):
    return dict(ENV, MC_BUILD=bdir, MC_VERIF=VERIF, MC_REPO=REPO)


def run_harness(exe, tier, bdir, extra=()):
    out = os.path.join(bdir, "out-%d-%s.txt" % (os.getpid(), os.path.basename(exe)))
    cmd = [exe, "--out", out] + (["--thorough"] if tier == "thorough" else []) + list(extra)
    r = subprocess.run(cmd, env=harness_env(bdir), cwd=REPO, capture_output=True, text=True, errors="replace")
    if r.returncode != 0 or not os.path.exists(out):
        die("harness %s failed (%d): %s" % (exe, r.returncode, r.stderr[-2000:]))
    stats, samples, viol = {}, [], []
    for line in open(out, errors="replace"):
        f = line.rstrip("\n").split("\t")
        if f[0] == "STAT":
            stats[f[1]] = int(f[2])
        elif f[0] == "SAMPLE":
            samples.append(f[1])
        elif f[0] in ("VIOL", "CRASH", "HANG", "BROKEN"):
            viol.append({"kind": f[0], "idx": int(f[1]), "shard": int(f[2]), "key": f[3], "msg": f[4] if len(f) > 4 else ""})
    os.unlink(out)
    return stats, samples, viol


def replay(exe, bdir, v, stats=None):
    """True when the violation shows again: alone first, then after the prefix of its shard"""
    r = subprocess.run([exe, "--replay", unesc(v["key"])], env=harness_env(bdir), cwd=REPO, capture_output=True, text=True,
                       errors="replace")
    if r.returncode != 0:
        m = re.findall(r"^FAIL (.*?)(?=^FAIL |\Z)", r.stderr, re.M | re.S)
        return True, (m[0] if m else r.stderr[-600:])
    if v["kind"] == "HANG":
        return False, "finishes when run alone"
    _, _, viol = run_harness(exe, v.get("tier", "quick"), bdir, ["--shard", str(v["shard"]), "--until", str(v["idx"])])
    for w in viol:
        if w["key"] == v["key"] and w["kind"] == v["kind"]:
            return True, v["msg"] + " (shows only after the cases before it in the same process)"
    return False, "not reproduced"


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    try:
        exes, bdir = build_all([prop])
    except RuntimeError as e:
        die("build failed: " + str(e))
    known = [f for f in load_findings()["findings"] if f["property"] == prop]
    total, samples, reported, seen_known, notes = {}, [], [], set(), []
    complete = True
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for h, exe in zip(c["harness"], exes[prop]):
        stats, smp, viol = run_harness(exe, tier, bdir)
        if stats.get("complete") != 1:
            complete = False
        for k, v in stats.items():
            total[k] = total.get(k, 0) + v
        samples += smp
        n_replayed, t_replay = 0, time.time()
        viol.sort(key=lambda v: (v["idx"], v["shard"]))
        for v in viol:
            v["tier"] = tier
            kf = next((f for f in known if f["key"] == unesc(v["key"])), None)
            if kf is not None:
                seen_known.add(kf["key"])
                continue
            if v["kind"] == "BROKEN":
                # the enumeration itself ended abnormally: setup of the code under test fails
                ok, msg = True, v["msg"]
            elif reported and (n_replayed >= 12 or time.time() - t_replay > 60):
                continue
            else:
                n_replayed += 1
                ok, msg = replay(exe, bdir, v)
            if not ok:
                notes.append("%s %s: %s" % (v["kind"], v["key"], msg))
                continue
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(reported)))
            json.dump({"property": prop, "harness": h["name"], "variant": h.get("variant", "asan"), "key": unesc(v["key"]),
                       "kind": v["kind"], "message": msg, "shard": v["shard"], "idx": v["idx"], "tier": tier,
                       "replay": "python3 check.py --replay " + os.path.relpath(path, VERIF)}, open(path, "w"), indent=1)
            reported.append((path, v["key"], msg))
    for f in known:
        if f["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    wall = time.time() - t0
    cov = {"exhaustive": bool(complete and not reported), "rule": c["bounds"][tier], "samples": samples[:12]}
    if c["level"] == "model_checking":
        cov.update(states=total.get("states", 0), transitions=total.get("transitions", 0),
                   traces_validated_against_impl=total.get("traces", 0))
    else:
        cov.update(evaluations=total.get("allocations_failed", total.get("cases", 0)), distinct_nontrivial=total.get("states", 0))
    for k, v in total.items():
        if k not in ("cases", "states", "transitions", "traces", "complete", "workers", "table_full"):
            cov[k] = v
    if notes:
        cov["notes"] = notes[:20]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": c["level"],
          "coverage": cov, "wall_s": round(wall, 2), "assumptions": c.get("assumptions", []),
          "violations": len(reported)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %.1f s%s" % (prop, tier, total.get("cases", 0), total.get("states", 0),
                                                                   total.get("transitions", 0), wall, "" if complete else " (stopped early)"))
    for n in notes[:5]:
        print("note: " + n)
    for path, key, msg in reported[:10]:
        print("  case: %s\n  %s" % (key[:600], msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if reported:
        sys.exit(1)
    if not complete:
        die("exploration stopped early without a reproducible violation: " + "; ".join(notes[:3]))
    sys.exit(0)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        try:
            build_all(sorted(CHECKS))
        except RuntimeError as e:
            die(str(e))
        return
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        exes, bdir = build_all([r["property"]])
        i = [h["name"] for h in CHECKS[r["property"]]["harness"]].index(r["harness"])
        ok, msg = replay(exes[r["property"]][i], bdir, {"key": r["key"], "kind": r["kind"], "shard": r["shard"], "idx": r["idx"],
                                                        "msg": r["message"], "tier": r["tier"]})
        print(("REPRODUCED: " if ok else "NOT REPRODUCED: ") + msg)
        if ok:
            print("VIOLATION property=%s replay=%s" % (r["property"], a[1]))
        sys.exit(1 if ok else 0)
    if not a or a[0] not in CHECKS:
        die("usage: check.py <property> [quick|thorough]")
    check(a[0], a[1] if len(a) > 1 else "quick")


if __name__ == "__main__":
    main()
