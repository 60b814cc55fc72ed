#!/usr/bin/env python3
"""Run one property check:  check.py <ID> [quick|thorough]      (VERIF_SEED picks the cases)
   Replay a failing case:   check.py <ID> --replay FILE"""
import json, os, shutil, signal, subprocess, sys, tempfile, time, resource

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
RACE = {"C24"}
REPEAT = {"C24": 30}          # replays tried for schedule-dependent cases
CRASH = {2, 66, -signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGKILL}
MAXW = 8
# the same checks once more as a 32-bit program, where int has 32 bits: (part of the boundary cases, part of the generated ones)
NARROW = {"C24": None, "C23": (60, 0.01)}
NARROW_STD = (1, 0.03)


# cases may be nested deeply
sys.setrecursionlimit(60000)

def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("ERROR: " + msg)
    sys.exit(3)


def go_env():
    return dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off")


class Narrow:
    """The harness as a 32-bit program: built while the others run.  Where it cannot be built or
    run (no such kernel, code that needs wide integers) it is left out, which the evidence says."""

    def __init__(self, tmp, prop):
        self.dir, self.part, self.state = os.path.join(tmp, "386"), NARROW.get(prop, NARROW_STD), "off"
        self.binary = os.path.join(self.dir, "harness.bin")
        self.proc = None
        if self.part:
            os.makedirs(self.dir)
            self.err = open(os.path.join(self.dir, "build"), "wb")
            self.proc = subprocess.Popen(["go", "build", "-o", self.binary, "."], cwd=HARNESS, env=dict(go_env(), GOARCH="386", CGO_ENABLED="0"),
                                         stdout=self.err, stderr=self.err, preexec_fn=os.setsid)
            self.state = "building"

    def ready(self):
        """True once, when the program can be started"""
        if self.state != "building" or self.proc.poll() is None:
            return False
        self.state = "cannot be built"
        if self.proc.returncode == 0:
            self.state = "cannot be run"
            try:
                p = subprocess.run([self.binary, "-list"], capture_output=True, timeout=60)
                if p.returncode == 0 and b"C01" in p.stdout:
                    self.state = "run"
            except (OSError, subprocess.TimeoutExpired):
                pass
        return self.state == "run"

    def wait(self):
        if self.proc:
            self.proc.wait()
        return self.ready()


class Guided(Narrow):
    """The harness with a copy of the package that counts what is reached, for the coverage-guided
    search of the thorough tier.  Left out where it cannot be built."""

    def __init__(self, tmp, prop, wanted):
        self.dir, self.state, self.proc = os.path.join(tmp, "guided"), "off", None
        self.binary = os.path.join(self.dir, "harness.bin")
        if not wanted or prop in RACE:
            return
        os.makedirs(self.dir)
        self.err = open(os.path.join(self.dir, "build"), "wb")
        script = """R=$(go list -m -f '{{.Dir}}' pgregory.net/rapid) || exit 1
for c in true false; do
  go run ../tools/instrument/main.go -src /repo -harness . -rapid "$R" -extra ../tools/instrument/zz_guided.go.txt -out "$1" -compare=$c &&
  go build -tags guided -overlay "$1/overlay.json" -modfile "$1/go.mod" -o "$1/harness.bin" . && exit 0
done
exit 1"""
        self.proc = subprocess.Popen(["sh", "-c", script, "sh", self.dir], cwd=HARNESS, env=go_env(), stdout=self.err, stderr=self.err, preexec_fn=os.setsid)
        self.state = "building"


def build(tmp, prop):
    env = go_env()
    out = os.path.join(tmp, "harness.bin")
    cmd = ["go", "build", "-o", out]
    if prop in RACE:
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
    r = subprocess.run(cmd + ["."], cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        die("the harness does not build against /repo:\n" + r.stderr[-3000:])
    return out


def limits(prop):
    def f():
        os.setsid()
        if prop not in RACE:
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def child_env(prop):
    env = dict(os.environ, GOTRACEBACK="single", GOMEMLIMIT="2500MiB", GOMAXPROCS="2")
    if prop in RACE:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        env["GOMAXPROCS"] = "4"
    return env


def start(w, prop, tier, seed, record=False):
    i, tmp = w["i"], w["dir"]
    cmd = [w["binary"], "-prop", prop, "-tier", tier, "-seed", str(seed), "-worker", str(i), "-workers", str(w["n"]),
           "-scale", str(w["scale"]), "-out", tmp, "-regress", os.path.join(VERIF, "regress", prop)]
    if tier == "thorough":
        cmd += ["-soft", os.environ.get("VERIF_SOFT", "3000")]
    if record:
        cmd.append("-record")
    err = open(os.path.join(tmp, "stderr-%d%s" % (i, "-rec" if record and prop not in RACE else "")), "wb")
    return subprocess.Popen(cmd, stdout=err, stderr=err, preexec_fn=limits(prop), env=child_env(prop), cwd=tmp)


def replay(binary, prop, path, times=1, timeout=600):
    """-> (status, text): 'ok', 'fail', 'crash', 'error'"""
    p = subprocess.Popen([binary, "-prop", prop, "-replay", path, "-times", str(times)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=limits(prop), env=child_env(prop))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "error", "replay timed out"
    out = out.decode("utf-8", "replace")
    if p.returncode == 0:
        return "ok", out
    if p.returncode == 1:
        return "fail", out
    if p.returncode in CRASH:
        return "crash", out
    return "error", out


def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            d = f.read()
        i = d.find(b"fatal error:")
        j = d.find(b"WARNING: DATA RACE")
        k = min([x for x in (i, j) if x >= 0] or [max(0, len(d) - n)])
        return d[k:k + n].decode("utf-8", "replace")
    except OSError:
        return ""


def merge(tmp, n):
    ev, hashes, labels, samples, extra = 0, set(), {}, [], {"boundary_cases": 0, "saved_inputs": 0, "early_stop": False, "workers_reporting": 0}
    rule = ""
    for i in range(n):
        try:
            st = json.load(open(os.path.join(tmp, "stats-%d.json" % i)))
        except (OSError, ValueError):
            continue
        extra["workers_reporting"] += 1
        ev += st["evaluations"]
        extra["boundary_cases"] += st["fixed"]
        extra["saved_inputs"] += st["regressed"]
        extra["early_stop"] = extra["early_stop"] or st["early"]
        rule = st["rule"]
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += (st["samples"] or [])[-2:]
        data = open(os.path.join(tmp, "hashes-%d.bin" % i), "rb").read()
        for j in range(0, len(data), 8):
            hashes.add(data[j:j + 8])
    return ev, hashes, labels, samples, extra, rule


def write_evidence(prop, tier, seed, t0, cov, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def known(binary, prop, tmp):
    """Listed findings of this property that still fail, confirmed by running their input."""
    res = []
    try:
        entries = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return res
    for i, e in enumerate(entries.get("known", [])):
        if e["property"] != prop:
            continue
        p = os.path.join(tmp, "known-%d.json" % i)
        json.dump({"case": e["case"]}, open(p, "w"))
        st, _ = replay(binary, prop, p)
        if st != "ok":
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]), flush=True)
            res.append(e["what"])
    return res


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    prop = sys.argv[1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    try:
        binary = build(tmp, prop)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            path = os.path.abspath(sys.argv[3])
            if json.load(open(path)).get("arch") == "386":
                narrow = Narrow(tmp, prop)
                if not narrow.wait():
                    die("the 32-bit program " + narrow.state)
                binary = narrow.binary
            st, out = replay(binary, prop, path, REPEAT.get(prop, 1))
            h = json.load(open(path)).get("history")
            if st == "ok" and h:
                # the case fails only after those before it: all of them again
                w = {"binary": binary, "i": h["worker"], "n": h["workers"], "dir": tmp, "scale": h["scale"]}
                p = start(w, prop, h["tier"], h["seed"])
                procs.append(p)
                found = os.path.join(tmp, "violation-%d.json" % w["i"])
                if p.wait() != 0:
                    st, out = "fail", json.load(open(found))["error"] if os.path.exists(found) else "the process dies or does not finish"
            print(st, out)
            return 0 if st == "ok" else 1 if st in ("fail", "crash") else 3
        narrow = Narrow(tmp, prop)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        useed = seed & ((1 << 64) - 1)
        log("built in %.1fs" % (time.time() - t0))
        found = known(binary, prop, tmp)
        n = MAXW
        guided = Guided(tmp, prop, tier == "thorough")
        workers = [{"binary": binary, "replay": binary, "i": i, "n": n, "dir": tmp, "scale": 1, "arch": "", "what": "", "rc": None} for i in range(n)]
        for w in workers:
            w["p"] = start(w, prop, tier, useed, record=prop in RACE)
            procs.append(w["p"])
        while any(w["rc"] is None for w in workers) or narrow.state == "building" or guided.state == "building":
            time.sleep(0.05)
            if narrow.ready():
                w = {"binary": narrow.binary, "replay": narrow.binary, "i": 0, "n": narrow.part[0], "dir": narrow.dir, "scale": narrow.part[1], "arch": "386", "what": " (32-bit)", "rc": None}
                w["p"] = start(w, prop, tier, useed)
                procs.append(w["p"])
                workers.append(w)
            if guided.ready():
                for i in range(2):
                    w = {"binary": guided.binary, "replay": binary, "i": i, "n": 8, "dir": guided.dir, "scale": 0.3, "arch": "", "what": " (guided)", "rc": None}
                    w["p"] = start(w, prop, tier, useed)
                    procs.append(w["p"])
                    workers.append(w)
            for w in workers:
                if w["rc"] is None:
                    w["rc"] = w["p"].poll()
            if any(w["rc"] not in (None, 0) for w in workers):
                # let the others see the same for a moment, then stop them
                time.sleep(0.3)
                for w in workers:
                    if w["rc"] is None:
                        w["rc"] = w["p"].poll()
                break
        for b in (narrow, guided):
            if b.proc and b.proc.poll() is None:
                kill(b.proc)
        bad = [w for w in workers if w["rc"] not in (None, 0)]
        for w in workers:
            if w["rc"] is None:
                kill(w["p"])
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
        why = None
        errors = []

        def save(w, case, text, how):
            d = {"case": case, "error": text[:2000], "how": how}
            if w["arch"]:
                d["arch"] = w["arch"]
            with open(rpath, "w") as f:
                json.dump(d, f)

        for w in sorted(bad, key=lambda w: (w["rc"] != 1, w["what"], w["i"])):
            name = "worker %d%s" % (w["i"], w["what"])
            if w["rc"] == 1:
                d = json.load(open(os.path.join(w["dir"], "violation-%d.json" % w["i"])))
                why = ("on a 32-bit platform: " if w["arch"] else "") + d["error"]
                if w["arch"]:
                    d["arch"] = w["arch"]
                with open(rpath, "w") as f:
                    json.dump(d, f)
                if w["what"] != " (guided)" and replay(w["replay"], prop, rpath)[0] == "ok":
                    d["history"] = {"worker": w["i"], "workers": w["n"], "scale": w["scale"], "tier": tier, "seed": useed}
                    with open(rpath, "w") as f:
                        json.dump(d, f)
                break
            if w["rc"] == 5:
                src = os.path.join(w["dir"], "hang-%d.json" % w["i"])
                st, out = replay(w["replay"], prop, src)
                if st in ("fail", "crash"):
                    save(w, json.load(open(src)), out, "does not finish")
                    why = out
                    break
                errors.append("%s: a case took too long but finishes when replayed (%s)" % (name, st))
                continue
            if w["rc"] in CRASH:
                msg = tail(os.path.join(w["dir"], "stderr-%d" % w["i"]))
                inflight = os.path.join(w["dir"], "inflight-%d.json" % w["i"])
                if prop in RACE and w["rc"] == 66 and os.path.exists(inflight):
                    # a race report is conclusive by itself
                    save(w, json.load(open(inflight)), msg, "race detector")
                    why = msg
                    break
                p = start(w, prop, tier, useed, record=True)
                procs.append(p)
                try:
                    p.wait(timeout=700)
                except subprocess.TimeoutExpired:
                    kill(p)
                if os.path.exists(inflight):
                    st, out = replay(w["replay"], prop, inflight, REPEAT.get(prop, 1))
                    if st in ("fail", "crash"):
                        k = out.find("fatal error")
                        save(w, json.load(open(inflight)), out[k:] if k >= 0 else out, "process died")
                        why = "the process dies: " + (out[k:] if k >= 0 else out)[:600]
                        break
                errors.append("%s died (rc %s) and no single case reproduces it:\n%s" % (name, w["rc"], msg))
                continue
            errors.append("%s: rc %s\n%s" % (name, w["rc"], tail(os.path.join(w["dir"], "stderr-%d" % w["i"]))))
        ev, hashes, labels, samples, extra, rule = merge(tmp, n)
        cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:12] or [{"note": "no sample, the run stopped early"}],
               "labels": dict(sorted(labels.items())), "known_findings": found}
        cov.update(extra)
        cov["as_32_bit_program"] = narrow.state
        if narrow.state == "run":
            ev32, h32, _, _, e32, _ = merge(narrow.dir, 1)
            cov["as_32_bit_program"] = {"evaluations": ev32, "distinct_nontrivial": len(h32), "boundary_cases": e32["boundary_cases"]}
            if not why and not errors and e32["workers_reporting"] != 1:
                errors.append("the 32-bit worker did not report")
        if guided.state == "run":
            evg, hg, lg, _, eg, _ = merge(guided.dir, 2)
            cov["coverage_guided"] = {"evaluations": evg, "distinct_nontrivial": len(hg), "search": [k[8:] for k in lg if k.startswith("guided: ")]}
            if not why and not errors and eg["workers_reporting"] != 2:
                errors.append("the coverage-guided workers did not report")
        elif tier == "thorough" and prop not in RACE:
            cov["coverage_guided"] = guided.state
        write_evidence(prop, tier, seed, t0, cov, 1 if why else 0,
                       ["single-threaded use except C24", "the harness's reference models are right", "decoded content is observed through the package's own accessors"])
        if why:
            print(why.strip()[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, rpath), flush=True)
            return 1
        if errors:
            die("\n".join(errors))
        if extra["workers_reporting"] != n:
            die("only %d of %d workers reported" % (extra["workers_reporting"], n))
        print("%s held: %d cases (%d distinct non-trivial, %d boundary, %d saved) in %.1fs%s" %
              (prop, ev, len(hashes), extra["boundary_cases"], extra["saved_inputs"], time.time() - t0, ", stopped early" if extra["early_stop"] else ""))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(tmp, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # a fault of the runner is never a verdict
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
