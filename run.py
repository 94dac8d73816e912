#!/usr/bin/env python3
"""Build the monitors against the current working tree of the repository and run one check.

usage: run.py <property> [--tier quick|thorough] [--case NAME] [--repo DIR] [--keep]

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check itself could not decide (a build failure, an unexplained crash, ...).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
LIB = "github.com/alexander-yu/stream"

# build mode(s) each property runs under; default is the plain build
MODES = {
    "C12": ["race"],
    "C13": ["sched"],
    "C14": ["sched", "plain"],
    "C15": ["plain", "sched"],
    "C05": ["plain", "sched"],
    "C24": ["plain", "sched"],
    "C26": ["sched"],
    "C29": ["sched", "plain"],
}
ASSUME = [
    "values are finite and small enough that the arithmetic of the statistic does not overflow",
    "the Go toolchain, the standard library and the vendored module cache are trusted",
    "only the executions generated from VERIF_SEED were observed; nothing is claimed about others",
]


def env():
    e = dict(os.environ)
    gr = "/opt/veriftools/go1.27.3"
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    if os.path.isdir(gr):
        e["GOROOT"] = gr
        e["PATH"] = gr + "/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.pop("GODEBUG", None)
    return e


def sh(cmd, cwd, e, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                       errors="replace")
    return p.returncode, p.stdout


def build(mode, repo, work, e):
    """Compile the harness for a mode; returns the binary."""
    mod = os.path.join(work, "go.mod")
    if not os.path.exists(mod):
        txt = open(os.path.join(HARNESS, "go.mod")).read()
        txt = re.sub(r"(replace " + re.escape(LIB) + r" => ).*", lambda m: m.group(1) + repo, txt)
        open(mod, "w").write(txt)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    out = os.path.join(work, "verif-" + mode)
    cmd = ["go", "build", "-modfile", mod, "-o", out]
    if mode == "race":
        cmd.append("-race")
    if mode == "sched":
        tool = os.path.join(work, "instr")
        rc, log = sh(["go", "build", "-modfile", mod, "-o", tool, "./cmd/instr"], HARNESS, e)
        if rc:
            return None, log
        ov = os.path.join(work, "overlay")
        cmd += ["-overlay", os.path.join(ov, "overlay.json"), "-tags", "sched"]
        for free in ([], ["-free"]):  # -free: if something about its channels could not be rewritten
            rc, log = sh([tool, "-repo", repo, "-out", ov, "-harness", HARNESS] + free, work, e)
            if rc:
                return None, log
            rc, log = sh(cmd + ["."], HARNESS, e)
            if rc == 0:
                return out, log
        return None, log
    rc, log = sh(cmd + ["."], HARNESS, e)
    return (None if rc else out), log


def stacks_in_lib(txt):
    """Goroutine blocks of a dump that are inside the library."""
    return [b for b in re.split(r"\n\n+", txt) if LIB + "/" in b or LIB + "." in b]


class Child:
    def __init__(self, binary, mode, a, seed, shard, work, e, case=""):
        self.mode, self.shard = mode, shard
        case = case or a.case
        self.base = os.path.join(work, "%s-%d" % (mode, shard[0]))
        self.out, self.hb = self.base + ".json", self.base + ".hb"
        cmd = [binary, "-prop", a.property, "-tier", a.tier, "-seed", str(seed), "-shard", "%d/%d" % shard,
               "-out", self.out, "-heartbeat", self.hb, "-scratch", work]
        if case:
            cmd += ["-case", case]
        ce = dict(e, GORACE="log_path=%s.race exitcode=0 halt_on_error=0 history_size=3" % self.base, GOTRACEBACK="all")
        ce["GOMEMLIMIT"] = "3GiB"
        self.err = open(self.base + ".err", "w")
        self.p = subprocess.Popen(cmd, cwd=work, env=ce, stdout=self.err, stderr=subprocess.STDOUT)

    def result(self):
        if os.path.exists(self.out):
            try:
                return json.load(open(self.out))
            except ValueError:
                pass
        return None

    def case(self):
        try:
            return open(self.hb).read().strip().split("\t")[-1]
        except OSError:
            return ""

    def judge_crash(self):
        """A child that wrote no result: a crash or hang inside the library refutes the property."""
        txt = open(self.base + ".err", errors="replace").read()
        case = self.case()
        st = self.hb + ".stacks"
        if os.path.exists(st):
            dump = open(st, errors="replace").read()
            libs = stacks_in_lib(dump)
            if libs:
                return dict(case=case, key="hang", detail="no progress for 60 s with calls inside the library",
                            trace=("\n\n".join(libs))[:6000].split("\n")), None
            return None, "no progress for 60 s, outside the library; case %s" % case
        m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", txt, re.M)
        if m and stacks_in_lib(txt[m.start():]):
            return dict(case=case, key="crash", detail="process crashed: " + m.group(1),
                        trace=txt[m.start():m.start() + 6000].split("\n")), None
        return None, "child %s exited with %s in case %s: %s" % (self.shard, self.p.returncode, case, txt[-1500:])


def race_reports(work):
    """Data races with both... at least one access inside the library."""
    seen, out = set(), []
    for f in sorted(os.listdir(work)):
        if ".race." not in f:
            continue
        txt = open(os.path.join(work, f), errors="replace").read()
        for rep in txt.split("=================="):
            if "DATA RACE" not in rep:
                continue
            # the two conflicting accesses: the first library frame below each
            accs = re.findall(r"((?:Previous )?(?:[Rr]ead|[Ww]rite) at .*?)(?=\n\n|\Z)", rep, re.S)
            tops = []
            for acc in accs[:2]:
                m = re.search(re.escape(LIB) + r"\S*", acc)
                tops.append(m.group(0) if m else "")
            if not any(tops):
                continue
            key = "race:" + "|".join(sorted(re.sub(r"\(0x[^)]*\)|\(\)$", "", t) for t in tops))
            if key in seen:
                continue
            seen.add(key)
            out.append(dict(case="", key=key, detail="data race: " + " / ".join(tops), trace=rep.strip().split("\n")[:80]))
    return out


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only compile every build mode, to fail early and fill the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--case", default="")
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    e = env()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    if a.setup:
        try:
            for mode in sorted(set(["plain"] + sum(MODES.values(), []))):
                if mode == "sched" and not os.path.isdir(os.path.join(HARNESS, "cmd", "instr")):
                    continue
                binary, log = build(mode, os.path.abspath(a.repo), work, e)
                print(mode, "ok" if binary else "FAILED\n" + log)
                if not binary:
                    sys.exit(1)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    try:
        rc = run(a, seed, work, e, t0)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


# Cases that need a process of their own, as they watch what happens only once in one.
COLD = {"C12": {"quick": 64, "thorough": 600}}


def children(binary, mode, a, seed, shards, work, e):
    """Start the children of one mode and yield each when it has ended."""
    def done(k):
        k.p.wait()
        k.err.close()
        return k
    for k in [Child(binary, mode, a, seed, (i, shards), work, e) for i in range(shards)]:
        yield done(k)
    if a.case:
        return
    n, width = COLD.get(a.property, {}).get(a.tier, 0), max(2, (os.cpu_count() or 4) // 2)
    for at in range(0, n, width):
        for k in [Child(binary, mode, a, seed, (1000 + i, 1), work, e, "cold-%d" % i) for i in range(at, min(n, at + width))]:
            yield done(k)


def run(a, seed, work, e, t0):
    ncpu = os.cpu_count() or 4
    shards = 1 if a.case else (a.shards or min(8, ncpu))
    results, viols, inconc, crashed = [], [], [], 0
    build_s = 0.0
    for mode in MODES.get(a.property, ["plain"]):
        tb = time.time()
        binary, log = build(mode, os.path.abspath(a.repo), work, e)
        build_s += time.time() - tb
        if not binary:
            print("BUILD FAILED (%s)\n%s" % (mode, log[-6000:]))
            return 2
        for k in children(binary, mode, a, seed, shards, work, e):
            r = k.result()
            if r is None:
                crashed += 1
                v, why = k.judge_crash()
                if v:
                    viols.append(dict(v, mode=mode))
                else:
                    inconc.append(why)
                continue
            results.append(r)
            viols += [dict(v, mode=mode) for v in r.get("violations") or []]
            inconc += r.get("inconclusive") or []
    viols += [dict(v, mode="race") for v in race_reports(work)]

    known, news, hit = known_findings(), [], {}
    for v in viols:
        for pid, key, what in known:
            if pid == a.property and re.fullmatch(key, v["key"]):
                hit[(pid, key, what)] = v
                break
        else:
            news.append(v)
    for pid, key, what in known:
        if pid == a.property:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))

    # union of the digests of all children
    distinct = 0
    digs = [os.path.join(work, f) for f in os.listdir(work) if f.endswith(".dig")]
    if digs:
        anybin = [os.path.join(work, f) for f in os.listdir(work) if f.startswith("verif-") and "." not in f][0]
        rc, out = sh([anybin, "-merge"] + digs, work, e)
        distinct = int(out.strip() or 0) if rc == 0 else 0
    counters, maxima, samples = {}, {}, []
    for r in results:
        for k, n in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + n
        for k, x in (r.get("maxima") or {}).items():
            maxima[k] = max(maxima.get(k, x), x)
    for r in results:
        samples += (r.get("samples") or [])[:2]
    cov = dict(evaluations=sum(r["evals"] for r in results), distinct_nontrivial=distinct,
               rule=results[0]["rule"] if results else "no child finished", samples=samples[:10] or ["none"],
               cases=max([r["cases"] for r in results] or [0]), observed=counters, maxima=maxima,
               modes=MODES.get(a.property, ["plain"]), shards=shards, build_s=round(build_s, 1),
               children_without_result=crashed)
    if inconc:
        cov["inconclusive"] = inconc[:10]
    rec = dict(property=a.property, tier=a.tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME,
               wall_s=round(time.time() - t0, 2), violations=len(news))
    with open(os.path.join(EVID, a.property + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (
        a.property, a.tier, seed, cov["evaluations"], distinct, len(news), time.time() - t0))
    for s in inconc[:5]:
        print("INCONCLUSIVE: " + s[:1500])
    if news:
        path = os.path.join("evidence", "replay-%s.json" % a.property)
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(dict(property=a.property, tier=a.tier, seed=seed,
                           replay_cmd="VERIF_SEED=%d python3 run.py %s --tier %s --case '%s'" % (seed, a.property, a.tier, news[0]["case"]),
                           violations=news[:40]), f, indent=1)
        for v in news[:5]:
            print("  [%s] case=%s %s" % (v["key"], v["case"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if inconc or not results:
        return 2
    if not a.case and cov["evaluations"] == 0:
        print("nothing was evaluated")
        return 2
    return 0


main()
