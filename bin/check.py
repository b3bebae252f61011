#!/usr/bin/env python3
"""Runs the check of one property: bin/check.py C03 [--replay FILE]

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
other   no answer (build failure, time-out, failure of the harness itself)
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
REPO = "/repo"

sys.path.insert(0, os.path.join(ROOT, "bin"))
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*",
             GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.pop("GOFLAGS_EXTRA")
    return e


def die(code, msg):
    print("NO-ANSWER: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def preparams(rmod, scratch, env):
    """Makes the module file use a copy of tss-lib that takes the pre-parameters of a node (minutes of prime search) from a file."""
    p = subprocess.run(["go", "list", "-modfile=" + rmod, "-m", "-f", "{{.Dir}}", "github.com/binance-chain/tss-lib"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die(3, "tss-lib not found: " + p.stdout)
    lib = os.path.join(scratch, "tss-lib")
    shutil.copytree(p.stdout.strip(), lib)
    for d, _, fs in os.walk(lib):
        for x in [d] + [os.path.join(d, f) for f in fs]:
            os.chmod(x, 0o755)
    src = os.path.join(lib, "ecdsa", "keygen", "prepare.go")
    with open(src) as f:
        text = f.read()
    with open(src, "w") as f:
        f.write(text.replace("func GeneratePreParams(", "func searchPreParams(", 1))
    with open(os.path.join(lib, "ecdsa", "keygen", "prepare_verif.go"), "w") as f:
        f.write('''package keygen

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"time"
)

func GeneratePreParams(timeout time.Duration, optionalConcurrency ...int) (*LocalPreParams, error) {
	file := os.Getenv("VERIF_PREPARAMS")
	if file == "" {
		return searchPreParams(timeout, optionalConcurrency...)
	}
	if err := ioutil.WriteFile(file+".timeout", []byte(timeout.String()), 0644); err != nil {
		return nil, err
	}
	buf, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var p LocalPreParams
	return &p, json.Unmarshal(buf, &p)
}
''')
    p = subprocess.run(["go", "mod", "edit", "-replace", "github.com/binance-chain/tss-lib=" + lib, rmod],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die(3, "go mod edit: " + p.stdout)


def build(pid, cfg, scratch):
    """Builds the test binary (and helpers) of a check from /repo's working tree."""
    env = goenv()
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, pid + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + mod, "-o", out]
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append("./" + cfg["pkg"])
    jobs = [(cmd, HARNESS)]
    for name, pkg in cfg.get("bins", {}).items():
        rmod = os.path.join(scratch, "repo.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), rmod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "repo.sum"))
        job = ["go", "build", "-modfile=" + rmod, "-o", os.path.join(scratch, name), pkg]
        if cfg.get("preparams"):
            preparams(rmod, scratch, env)
            job[2:2] = ["-trimpath"]
        jobs.append((job, REPO))
    if cfg.get("mirror"):
        # a main package of the repository, made importable: the same files under another package name
        # (language version as in /repo/go.mod: below go1.22)
        rep = {}
        for dst, (src, pkgname) in cfg["mirror"].items():
            for fn in sorted(os.listdir(os.path.join(REPO, src))):
                if not fn.endswith(".go") or fn.endswith("_test.go"):
                    continue
                with open(os.path.join(REPO, src, fn)) as f:
                    text = f.read()
                text = re.sub(r"^package main\b", "package " + pkgname, text, count=1, flags=re.M)
                if "//go:build" not in text:
                    text = "//go:build go1.21\n\n" + text
                out_go = os.path.join(scratch, pkgname + "_" + fn)
                with open(out_go, "w") as f:
                    f.write(text)
                rep[os.path.join(HARNESS, dst, fn)] = out_go
        ov = os.path.join(scratch, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        cmd[3:3] = ["-overlay=" + ov]
    for cmd, cwd in jobs:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            die(3, "build failed: " + " ".join(cmd))
    return out


REPO_FRAME = re.compile(r"gitlab\.com/thorchain/tss/(go-tss|tss-lib)")


def classify(rc, out):
    """pass | violation | infra"""
    if rc == 0:
        return "pass", ""
    if "VERIF-INFRA:" in out or rc == 99:
        return "infra", "harness failure"
    if "panic: test timed out" in out:
        # a call into the repository that never returned: blocked for minutes in a goroutine of a test
        for g in re.split(r"\n\n", out):
            m = re.match(r"goroutine \d+[^\[]*\[[^\]]*?(\d+) minutes", g.strip())
            if m and int(m.group(1)) >= 4 and re.search(r"gitlab\.com/thorchain/tss/go-tss/", g) and re.search(r"\bverif/", g):
                return "violation", "a call never returned"
        return "infra", "time-out"
    if rc < 0:
        return "infra", "killed by signal %d" % -rc
    m = re.search(r"^(panic: |fatal error: |unexpected fault|SIGSEGV)", out, re.M)
    if m and "--- FAIL" not in out:
        # the process died outside a test goroutine: ours only if the repository's code is on the stack
        stack = out[m.start():]
        first = stack.split("\n\n")
        head = "\n\n".join(first[:2])
        if REPO_FRAME.search(head):
            return "violation", "process crash"
        return "infra", "harness crash"
    if "--- FAIL" in out or "WARNING: DATA RACE" in out:
        return "violation", "test failure"
    return "infra", "exit status %d" % rc


def main():
    args = sys.argv[1:]
    pid = args[0]
    replay = None
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            replay = json.load(f)
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if replay:
        tier = replay["tier"]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    code = 4
    try:
        code = run(pid, cfg, tier, seed, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(pid, cfg, tier, seed, scratch, t0, replay):
    binary = build(pid, cfg, scratch)
    tbuild = time.time() - t0
    shards = cfg.get("shards", {}).get(tier, 1) if not replay else 1
    timeout = cfg.get("timeout", {}).get(tier, 600 if tier == "quick" else 5400)
    procs = []
    # one process per group of tests and seed
    units = [(rx, i) for i in range(shards) for rx in cfg.get("split", [cfg.get("run", "^Test")])]
    if replay:
        units = [(replay["test"], 0)]
    for i, (rx, shard) in enumerate(units):
        wd = os.path.join(scratch, "w%d" % i)
        tmp = os.path.join(wd, "tmp")
        os.makedirs(tmp)
        env = goenv()
        rseed = (abs(seed) * 1000003 + shard * 7919 + 17) % (1 << 62)
        if replay:
            rseed = replay["rseed"]
        env.update(VERIF_TIER=tier, VERIF_RSEED=str(rseed), VERIF_STATS=os.path.join(wd, "stats.json"),
                   VERIF_CASE=os.path.join(wd, "case.txt"), VERIF_KNOWN=KNOWN, VERIF_HARNESS=HARNESS,
                   VERIF_BIN=scratch, VERIF_SHARD=str(shard), TMPDIR=tmp, GOTRACEBACK="all")
        cmd = [binary, "-test.run", rx,
               "-test.timeout", "%ds" % timeout, "-test.v=false"]
        if replay and replay.get("failfile"):
            ff = os.path.join(wd, "replay.fail")
            with open(ff, "w") as f:
                f.write(replay["failfile"])
            cmd.append("-rapid.failfile=" + ff)
        log = open(os.path.join(wd, "out.log"), "w+", errors="replace")
        p = subprocess.Popen(cmd, cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((i, wd, p, log, rseed))
    deadline = time.time() + timeout + 20
    results = []
    for i, wd, p, log, rseed in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.wait()
        log.flush()
        log.seek(0)
        out = log.read()
        log.close()
        results.append((i, wd, rc, out, rseed))
    # merge what was covered
    evals, keyset, rules, samples, labels, known = 0, set(), [], [], {}, set()
    for i, wd, rc, out, rseed in results:
        try:
            with open(os.path.join(wd, "stats.json")) as f:
                s = json.load(f)
        except (OSError, ValueError):
            continue
        evals += s["evaluations"]
        keyset.update(s.get("keys") or [])
        for r in s.get("rule") or []:
            if r not in rules:
                rules.append(r)
        if len(samples) < 40:
            samples += s.get("samples") or []
        for k, v in (s.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
        known.update(s.get("known") or [])
    violations, infra = [], []
    for i, wd, rc, out, rseed in results:
        kind, why = classify(rc, out)
        if kind == "violation":
            violations.append((i, wd, out, rseed, why))
        elif kind == "infra":
            infra.append((i, why, out))
    code = 0
    lines = []
    for i, wd, out, rseed, why in violations:
        m = re.search(r"--- FAIL: (\w+)", out)
        test = "^" + m.group(1) + "$" if m else cfg.get("run", "^Test")
        rp = os.path.join(EVID, "replay", "%s-%s-%d-%d.json" % (pid, tier, seed, i))
        fail = None
        for d, _, fs in os.walk(os.path.join(wd, "testdata")):
            for fn in fs:
                if fn.endswith(".fail"):
                    with open(os.path.join(d, fn), errors="replace") as f:
                        fail = f.read()
        case = ""
        try:
            with open(os.path.join(wd, "case.txt"), errors="replace") as f:
                case = f.read()[:20000]
        except OSError:
            pass
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "rseed": rseed, "test": test, "why": why,
                       "failfile": fail, "case": case, "output": out[-20000:],
                       "how": "bin/check.py %s --replay %s" % (pid, rp)}, f, indent=1)
        print(out[-5000:])
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    if not violations and infra:
        for i, why, out in infra:
            print(out[:3000])
            print("......")
            print(out[-4000:])
        print("NO-ANSWER: " + "; ".join("shard %d: %s" % (i, why) for i, why, _ in infra))
        code = 2
    if code == 0 and evals == 0 and not replay:
        print("NO-ANSWER: no case was executed")
        code = 2
    if not replay:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(keyset), "rule": " || ".join(rules),
                           "samples": samples[:40], "counts_by_group": labels, "processes": len(results),
                           "build_s": round(tbuild, 1)},
              "assumptions": COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        p = os.path.join(EVID, pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                if l.startswith("KNOWN-FINDING:") and "property=%s " % pid in l:
                    print(l.strip())
    for l in lines:
        print(l)
    if code == 0:
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tier, seed, evals, len(keyset), time.time() - t0))
    return code


if __name__ == "__main__":
    main()
