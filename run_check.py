#!/usr/bin/env python3
"""run_check.py PROPERTY        run the check of one property (VERIF_TIER, VERIF_SEED from the environment)
run_check.py --replay FILE   run one recorded violation again
run_check.py --build         build the flavours used by the checks (setup)

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
JOBS = 8
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, FLAVOURS  # noqa: E402


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ builds
def source_key(flavour):
    h = hashlib.sha256()
    h.update(json.dumps(FLAVOURS[flavour], sort_keys=True).encode())
    roots = [REPO + "/src", REPO + "/include", V + "/harness"]
    if FLAVOURS[flavour].get("target") == "python":
        roots[-1] = V + "/harness/build.sh"
        roots.append(REPO + "/pybind11/include")
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".hh", ".sh")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build(flavour):
    """Build the worker (or python module) of a flavour from the current tree; cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    key = source_key(flavour)
    out = os.path.join(BUILD, flavour + "-" + key)
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out + "/ok"):
            return out
        for d in os.listdir(BUILD):          # keep one tree per flavour
            if d.startswith(flavour + "-"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        f = FLAVOURS[flavour]
        cmd = ["bash", V + "/harness/build.sh", out, f["cxx"], f["flags"], f.get("libflags", ""), f.get("target", "mon")]
        r = subprocess.run(cmd, env=dict(os.environ, REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("build of flavour %s failed:\n%s" % (flavour, r.stdout.decode(errors="replace")[-3000:]))
        open(out + "/ok", "w").close()
        shutil.rmtree(out + "/lib", ignore_errors=True)
        shutil.rmtree(out + "/h", ignore_errors=True)
    return out


# ------------------------------------------------------------------ workers
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:hard_rss_limit_mb=3000:handle_abort=0:symbolize=1",
    "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1",
}
RSS_LIMIT_MB = 2500


def spawn(out, part, seed, frm, to, step, path, verbose=False, cpu=None):
    env = dict(os.environ)
    env.pop("MON_UNTIL", None)
    if part.get("until") and not verbose:
        env["MON_UNTIL"] = str(int(part["until"]))
    env.update(SAN_ENV)
    env["MON_CPU"] = str(cpu or part.get("cpu", 30))
    if FLAVOURS[part["flavour"]].get("limit_as", True) and part.get("limit_as", True):
        env["MON_AS"] = "3000"
    env["MON_DIR"] = path + ".d"
    os.makedirs(env["MON_DIR"], exist_ok=True)
    cmd = part.get("wrap", []) + [out + "/mon", part["module"], str(seed), str(frm), str(to), str(step), path]
    if verbose:
        cmd.append("-v")
    for f in (path, path + ".progress", path + ".seen"):
        if os.path.exists(f):
            os.unlink(f)
    return subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(path + ".err", "wb"), cwd=env["MON_DIR"])


def wait(p, deadline):
    try:
        return p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None


def read_progress(path):
    try:
        b = open(path + ".progress", "rb").read(24)
        return struct.unpack("qqq", b)
    except Exception:
        return None


def crash_label(rc, err):
    """A stable name for how a worker died."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "memory-error:" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "undefined-behaviour:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(1))[:80]
    m = re.search(r"Assertion '(.*)' failed", err)
    if m:
        return "assertion:" + m.group(1)[:80]
    if re.search(r"Error: attempt to ", err):
        return "assertion:" + re.search(r"Error: (attempt to .*)", err).group(1)[:80]
    if rc == 76:
        return "valgrind-error"
    if "terminate called" in err:
        return "terminate"
    return "crash:signal-%d" % -rc if rc < 0 else "crash:exit-%d" % rc


def stack_of(err):
    """First frames of the report that lie in the code under test, without line numbers."""
    fr = re.findall(r"#\d+ 0x\w+ in (.+?) (?:/repo/)?(?:src|include|/repo\S*)", err)
    if not fr:
        fr = re.findall(r"(?:at|by) 0x\w+: (.+?) \(", err)
    return " < ".join(f.split("(")[0] for f in fr[:4])


def run_worker(out, part, seed, k, n, tmp, deadline):
    """Run cases k, k+JOBS, ... < n; resume after a crash. Returns (violations, summaries, seen, inconclusive)."""
    viols, sums, seen, inc = [], [], set(), []
    frm, crashes = k, 0
    while frm < n:
        path = "%s/%s.%d.%d" % (tmp, part["module"], k, crashes)
        p = spawn(out, part, seed, frm, n, JOBS, path)
        rc = wait(p, deadline)
        err = open(path + ".err", errors="replace").read()
        if os.path.exists(path):
            for line in open(path, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "viol" in d:
                    viols.append(dict(part=part, kind=d["viol"], index=d["index"], descr=d["descr"]))
                elif d.get("done"):
                    sums.append(d)
                    if os.path.exists(path + ".seen"):
                        b = open(path + ".seen", "rb").read()
                        seen.update(struct.unpack("%dQ" % (len(b) // 8), b))
        shutil.rmtree(path + ".d", ignore_errors=True)
        pr = read_progress(path)
        if rc == 0 and pr and pr[2] == 1:
            break
        if rc is None:
            inc.append("%s: out of time at case %s" % (part["module"], pr and pr[0]))
            break
        if rc == 64 or pr is None:
            raise CheckError("worker of %s failed to start (%s): %s" % (part["module"], rc, err[-500:]))
        idx = pr[0]
        if pr[2] == 1:     # died after the last case, while exiting: LeakSanitizer or static destruction
            viols.append(dict(part=part, kind="at-exit:" + crash_label(rc, err), index=idx, descr=err[:3000], atexit=True))
            break
        if rc == 77 or rc == -9:
            # a case used up its CPU budget (or the memory of the machine): run it alone, with more
            path2 = "%s/%s.%d.%d.alone" % (tmp, part["module"], k, crashes)
            p = spawn(out, part, seed, idx, idx + 1, 1, path2, cpu=4 * part.get("cpu", 30))
            rc2 = wait(p, deadline)
            shutil.rmtree(path2 + ".d", ignore_errors=True)
            if rc2 == 77:
                viols.append(dict(part=part, kind="does-not-terminate", index=idx, descr="case %d did not end within %d s of CPU time" % (idx, 4 * part.get("cpu", 30))))
            elif rc2 == -9:
                viols.append(dict(part=part, kind="memory-exhausted", index=idx, descr="case %d was ended for its memory use, alone, too" % idx))
            elif rc2 is None:
                inc.append("%s: case %d did not end in time" % (part["module"], idx))
            elif rc2 not in (0,):
                e2 = open(path2 + ".err", errors="replace").read()
                viols.append(dict(part=part, kind=crash_label(rc2, e2), index=idx, descr=stack_of(e2) + "\n" + e2[:3000]))
        else:
            viols.append(dict(part=part, kind=crash_label(rc, err), index=idx, descr=stack_of(err) + "\n" + err[:3000]))
        crashes += 1
        if crashes > 3:
            break
        frm = idx + JOBS
    return viols, sums, seen, inc


def run_part(part, seed, tier, tmp, deadline):
    out = build(part["flavour"])
    n = part[tier]
    jobs = part.get("jobs", JOBS)
    viols, sums, seen, inc = [], [], set(), []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(lambda k: run_worker(out, part, seed, k, n, tmp, deadline), range(JOBS)):
            viols += r[0]
            sums += r[1]
            seen |= r[2]
            inc += r[3]
    _ = jobs
    return viols, sums, seen, inc


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """known: property=ID kind=KIND match=REGEX | text      (fixed: lines suppress nothing)"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\S+) kind=(\S+) match=(.*?) \| (.*)", line)
        if m and m.group(1) == prop:
            res.append(dict(kind=m.group(2), match=re.compile(m.group(3)), text=m.group(4).strip()))
    return res


def main_check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = CHECKS[prop]
    deadline = t0 + (780 if tier == "quick" else float(os.environ.get("VERIF_DEADLINE", "36000")) + 120)
    soft = t0 + (600 if tier == "quick" else float(os.environ.get("VERIF_DEADLINE", "36000")))
    tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    viols, inc = [], []
    parts_cov, evals, nontriv, samples, sk = [], 0, set(), [], 0
    try:
        for np, part in enumerate(chk["parts"]):
            build(part["flavour"])
            now = time.time()     # a slow machine explores less, it does not fail
            part = dict(part, until=now + max(20, min(soft - now, 2 * (soft - now) / (len(chk["parts"]) - np))))
            if "script" in part:
                import importlib
                mod = importlib.import_module(part["script"])
                v, sums, seen, i = mod.run(part, seed, tier, tmp, deadline, build, SAN_ENV)
            else:
                v, sums, seen, i = run_part(part, seed, tier, tmp, deadline)
            viols += v
            inc += i
            cnt = {}
            pe = 0
            for s in sums:
                pe += s["evals"]
                sk += s["skipped"]
                for a, b in s["cnt"].items():
                    cnt[a] = cnt.get(a, 0) + b
                if len(samples) < 6:
                    samples += [x[:600] for x in s["samples"][:1]]
            evals += pe
            nontriv |= seen
            parts_cov.append(dict(module=part.get("label", part.get("module")), flavour=part["flavour"], evaluations=pe, distinct_nontrivial=len(seen), observed=cnt))
            if not v and not i and (pe < part.get("min", 1) or not seen):
                raise CheckError("module %s observed too little: %d evaluations, %d non-trivial" % (part.get("module"), pe, len(seen)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- verdict
    known = known_findings(prop)
    new, hit = {}, {}
    for v in viols:
        for k in known:
            if k["kind"] == v["kind"] and k["match"].search(v["descr"]):
                hit[k["text"]] = v
                break
        else:
            new.setdefault(v["part"].get("module", "script") + ":" + v["kind"], []).append(v)
    os.makedirs(V + "/evidence", exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=chk["rule"], samples=samples or ["none"],
                            skipped=sk, parts=parts_cov, known_findings=sorted(hit), inconclusive=inc),
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=sum(len(x) for x in new.values()))
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for k in known:
        if k["text"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if new:
        rd = V + "/replay"
        os.makedirs(rd, exist_ok=True)
        for n, (kind, vs) in enumerate(sorted(new.items())):
            v = min(vs, key=lambda x: len(x["descr"]))
            f = "%s/%s-%d.json" % (rd, prop, n)
            json.dump(dict(property=prop, part={a: b for a, b in v["part"].items() if a != "until"}, seed=seed, index=v["index"], kind=v["kind"], descr=v["descr"]), open(f, "w"), indent=1)
            print("-- %s (%d reports), case %s\n%s" % (kind, len(vs), v["index"], v["descr"][:2500]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if inc:
        print("INCONCLUSIVE: " + "; ".join(inc[:5]))
        if not all(p["evaluations"] for p in parts_cov):
            return 2
    print("%s: held on %d executions, %d distinct non-trivial, %d skipped (%.1f s)" % (prop, evals, len(nontriv), sk, time.time() - t0))
    for p in parts_cov:
        print("  %s [%s]: %d  %s" % (p["module"], p["flavour"], p["evaluations"], json.dumps(p["observed"])))
    return 0


def replay(f):
    d = json.load(open(f))
    part = d["part"]
    tmp = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        if "script" in part:
            import importlib
            return importlib.import_module(part["script"]).replay(d, tmp, build, SAN_ENV)
        out = build(part["flavour"])
        path = tmp + "/r"
        p = spawn(out, part, d["seed"], d["index"], d["index"] + 1, 1, path, verbose=True, cpu=120)
        rc = wait(p, time.time() + 600)
        print(open(path + ".err", errors="replace").read())
        bad = rc != 0 or any('"viol"' in x for x in open(path))
        print("exit status %s: %s" % (rc, "violated" if bad else "held"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "--build":
            for f in FLAVOURS:
                build(f)
            return 0
        return main_check(sys.argv[1])
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
