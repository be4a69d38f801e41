#!/usr/bin/env python3
"""Runs one check: python3 mc/run.py <PROPERTY> [--tier quick|thorough] | --setup | --replay <file>.

A check is a list of parts (see checks.py); each part is a program that enumerates a space of executions.
exit 0: the property held on everything explored (known findings are printed); exit 1: VIOLATION line(s).
"""
import json, mmap, os, shutil, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import checks as CK

VERIF = B.VERIF
EXEC_TIMEOUT = 60.0     # a single execution in a shard
REPLAY_TIMEOUT = 180.0  # the same execution alone


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def env_for(part):
    e = dict(os.environ)
    e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MALLOC_MMAP_THRESHOLD_": "500000000",
              "MALLOC_TRIM_THRESHOLD_": "1000000000", "MALLOC_TOP_PAD_": "67108864", "LC_ALL": "C.UTF-8",
              "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                              "detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=16:allow_user_segv_handler=1",
              "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99", "TSAN_OPTIONS": "halt_on_error=1:exitcode=99"})
    e.pop("IPOPT_OPTIONS", None)
    e.update(part.get("env", {}))
    return e


def read_shm(path):
    with open(path, "rb") as f:
        head = f.read(24)
        ex, start, n, done = struct.unpack("<QdII", head)
        ch = struct.unpack("<%di" % n, f.read(4 * n)) if n else ()
    return ex, start, list(ch), done


class Shard:
    def __init__(self, part, prog, args, i, n, work):
        self.part, self.prog, self.i, self.n = part, prog, i, n
        self.dir = os.path.join(work, "%s-%d" % (part["name"], i))
        os.makedirs(self.dir)
        self.shm = os.path.join(self.dir, ".shm")
        self.outf = os.path.join(self.dir, ".out")
        self.args = [prog] + args
        self.so = open(os.path.join(self.dir, ".stdout"), "wb")
        self.se = open(os.path.join(self.dir, ".stderr"), "wb")
        self.p = subprocess.Popen(self.args + ["--shard", "%d/%d" % (i, n), "--shm", self.shm, "--out", self.outf],
                                  cwd=self.dir, stdout=self.so, stderr=self.se, env=env_for(part))
        self.hung = False
        self.t0 = time.time()

    def watch(self):
        """True when finished; kills a shard whose current execution runs too long"""
        if self.p.poll() is not None:
            return True
        try:
            ex, start, _, done = read_shm(self.shm)
            if start > 0 and not done:
                if time.clock_gettime(time.CLOCK_MONOTONIC) - start > self.part.get("exec_timeout", EXEC_TIMEOUT):
                    self.hung = True
                    self.p.kill()
                    self.p.wait()
                    return True
        except (OSError, struct.error):
            pass
        return False

    def text(self, which):
        (self.so if which == "out" else self.se).flush()
        return open(os.path.join(self.dir, ".std" + which), errors="replace").read()


def replay(part, prog, args, choices, work, timeout=REPLAY_TIMEOUT):
    """-> (violated, keys, text)"""
    d = tempfile.mkdtemp(dir=work)
    try:
        r = subprocess.run([prog] + args + ["--replay", ",".join(map(str, choices))], cwd=d, env=env_for(part),
                           capture_output=True, timeout=timeout)
        out = r.stdout.decode(errors="replace")
        err = r.stderr.decode(errors="replace")
        keys = [json.loads(l[7:])["key"] for l in out.splitlines() if l.startswith("MCVIOL ")]
        if r.returncode == 0:
            return False, [], out + err
        if r.returncode != 1:
            keys.append("crash")
        return True, keys, out + err[-6000:]
    except subprocess.TimeoutExpired as ex:
        return True, ["hang"], "execution did not end within %g s" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_part(part, tier, work):
    """runs all shards of a part -> dict(stats, violations)"""
    prog = part["build"]()
    args = ["--tier", tier] + [str(a) for a in part.get("args", [])]
    if tier == "thorough" and "thorough_args" in part:
        args += [str(a) for a in part["thorough_args"]]
    if tier == "quick" and "quick_args" in part:
        args += [str(a) for a in part["quick_args"]]
    limit = part.get("limit", {"quick": 420, "thorough": 3000})[tier]
    args += ["--limit", str(limit)]
    n = part.get("shards", B.NPROC)
    shards, pending = [], list(range(n))
    running = []
    while pending or running:
        while pending and len(running) < B.NPROC:
            s = Shard(part, prog, args, pending.pop(0), n, work)
            running.append(s)
            shards.append(s)
        running = [s for s in running if not s.watch()]
        time.sleep(0.05)
    res = {"evals": 0, "outcomes": set(), "counters": {}, "samples": [], "capped": False, "viol": [], "prog": prog, "args": args}
    for s in shards:
        out = s.text("out")
        stat = None
        for l in out.splitlines():
            if l.startswith("MCVIOL "):
                v = json.loads(l[7:])
                v["shard"] = (s.i, s.n)
                res["viol"].append(v)
            elif l.startswith("MCSTAT "):
                stat = json.loads(l[7:])
        if stat:
            res["evals"] += stat["evals"]
            res["capped"] |= stat["capped"]
            res["samples"] += stat["samples"][:2]
            for k, c in stat["counters"].items():
                res["counters"][k] = res["counters"].get(k, 0) + c
            try:
                data = open(s.outf, "rb").read()
                res["outcomes"].update(struct.unpack("<%dQ" % (len(data) // 8), data))
            except OSError:
                pass
        else:
            try:
                ex, _, ch, _ = read_shm(s.shm)
            except (OSError, struct.error):
                ex, ch = 0, []
            if s.p.returncode in (97, 98) or ex == 0:
                raise RuntimeError("harness error in %s (exit %s): %s" % (part["name"], s.p.returncode, s.text("err")[-3000:]))
            if s.p.returncode == 96:
                continue   # already reported as nondeterminism
            res["evals"] += ex
            res["viol"].append({"key": "hang" if s.hung else "crash", "choices": ch, "shard": (s.i, s.n),
                                "msg": ("execution did not end" if s.hung else "process ended abnormally (exit %s): " % s.p.returncode + s.text("err")[-1500:])})
    return res


def confirm(part, res, v, work):
    """replays a violation alone, twice; falls back to re-running its shard (history-dependent failures)"""
    a = replay(part, res["prog"], res["args"], v["choices"], work)
    if a[0] and (v["key"] in a[1] or v["key"] in ("crash", "hang", "nondeterminism")):
        b = replay(part, res["prog"], res["args"], v["choices"], work)
        if b[0] and set(a[1]) == set(b[1]):
            return "single", a[2]
    s = Shard(dict(part, name=part["name"] + "-confirm%d" % time.time_ns()), res["prog"], res["args"], v["shard"][0], v["shard"][1], work)
    while not s.watch():
        time.sleep(0.05)
    out = s.text("out")
    if any(l.startswith("MCVIOL ") and json.loads(l[7:])["key"] == v["key"] for l in out.splitlines()) or \
       (v["key"] in ("crash", "hang") and "MCSTAT " not in out):
        return "shard", out[-3000:] + s.text("err")[-3000:]
    return None, a[2]


def main():
    if "--setup" in sys.argv:
        CK.setup()
        print("setup done")
        return 0
    if "--replay" in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ck = CK.CHECKS[f["property"]]
        part = [p for p in ck["parts"] if p["name"] == f["part"]][0]
        work = tempfile.mkdtemp(prefix="mc-replay-")
        try:
            prog = part["build"]()
            v, keys, txt = replay(part, prog, f["args"], f["choices"], work)
            print(txt)
            return 1 if v else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = CK.CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    cov = {"rule": ck["rule"], "samples": [], "parts": {}}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ck["level"], "coverage": cov, "assumptions": ck.get("assumptions", [])}
    reported, known_seen, unrepro = [], [], []
    kf = [k for k in known_findings() if k["property"] == prop and k["status"] == "known"]
    try:
        evals, outc, capped = 0, 0, False
        extra = {}
        only = sys.argv[sys.argv.index("--part") + 1] if "--part" in sys.argv else None
        for part in ck["parts"]:
            if only and part["name"] != only:
                continue
            if part.get("thorough_only") and tier != "thorough":
                continue
            tp = time.time()
            if "func" in part:
                res = part["func"](tier, work, seed)
                res.setdefault("args", [])
            else:
                res = run_part(part, tier, work)
            print("%s/%s: %d executions, %d distinct outcomes%s, %.1fs %s" % (
                prop, part["name"], res["evals"], len(res["outcomes"]), " (capped)" if res["capped"] else "", time.time() - tp,
                json.dumps(res["counters"])))
            sys.stdout.flush()
            evals += res["evals"]
            outc += len(res["outcomes"])
            capped |= res["capped"]
            cov["samples"] += res["samples"][:4]
            cov["parts"][part["name"]] = dict({"executions": res["evals"], "distinct": len(res["outcomes"]), "capped": res["capped"]}, **res["counters"])
            for k, c in res["counters"].items():
                extra[k] = extra.get(k, 0) + c
            if len(res["outcomes"]) < part.get("min_distinct", 2) and not res["viol"]:
                raise RuntimeError("vacuous exploration in part %s: %d distinct outcomes" % (part["name"], len(res["outcomes"])))
            done = set()
            confirmed = 0
            for v in res["viol"]:
                k = [x for x in kf if x["key"] == v["key"] and x.get("part", part["name"]) == part["name"]]
                if k:
                    if k[0]["key"] not in known_seen:
                        known_seen.append(k[0]["key"])
                        print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
                    continue
                if v["key"] in done or confirmed >= 5:
                    continue
                if "func" in part:
                    how, txt = v.get("confirmed", "single"), v["msg"]
                else:
                    how, txt = confirm(part, res, v, work)
                if not how:
                    unrepro.append(v)
                    print("UNREPRODUCIBLE (not reported): %s %s %s" % (part["name"], v["key"], v["msg"][:400]))
                    print(txt[-800:])
                    continue
                done.add(v["key"])
                confirmed += 1
                path = os.path.join(rdir, "%s-%s-%d.json" % (prop, part["name"], len(reported)))
                json.dump({"property": prop, "part": part["name"], "key": v["key"], "choices": v.get("choices", []), "args": res["args"],
                           "how": how, "shard": v.get("shard"), "msg": v["msg"], "log": txt[-6000:],
                           "replay_cmd": "python3 mc/run.py --replay %s" % path}, open(path, "w"), indent=1)
                reported.append(path)
                print("  key=%s: %s" % (v["key"], v["msg"][:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                sys.stdout.flush()
            if reported and not os.environ.get("VERIF_ALL_PARTS"):
                break
        if ck["level"] == "model_checking":
            cov["states"] = outc
            cov["transitions"] = extra.pop("transitions", 0)
            cov["traces_validated_against_impl"] = evals
        else:
            cov["evaluations"] = evals
            cov["distinct_nontrivial"] = outc
        cov["exhaustive"] = not capped and not reported
        cov["bounds"] = ck.get("bounds", "")
        cov["known_findings_seen"] = len(known_seen)
        cov["unreproducible"] = len(unrepro)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(reported)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %s in %.1fs" % (prop, tier, "VIOLATED" if reported else "held", ev["wall_s"]))
    return 1 if reported else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as ex:
        print("BUILD ERROR:", ex)
        sys.exit(2)
