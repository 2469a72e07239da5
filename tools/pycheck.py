"""Part of a check that replays recorded scenarios through the Python binding, under AddressSanitizer."""
import concurrent.futures, json, os, re, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env_for(mod, san, mode):
    e = dict(os.environ)
    e.update(PYTHONPATH=mod, PYTHONDONTWRITEBYTECODE="1")
    if mode == "leak":
        e["LD_PRELOAD"] = mod + "/newcount.so"
        return e
    lib = lambda n: subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE).stdout.decode().strip()
    e.update(san)
    e.update(LD_PRELOAD=" ".join([lib("libasan.so"), lib("libubsan.so"), lib("libstdc++.so")]), PYTHONMALLOC="malloc")
    e["ASAN_OPTIONS"] += ":quarantine_size_mb=16"
    return e


def record(worker, seed, lo, hi, tmp, san, tag="scen"):
    d = os.path.join(tmp, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(os.environ, MON_DIR=d, MON_CPU="60", **san)
    p = subprocess.run([worker + "/mon", "py_scenarios", str(seed), str(lo), str(hi), "1", d + "/out"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    done = [json.loads(x) for x in open(d + "/out", errors="replace") if x.startswith('{"done"')]
    return p.returncode, p.stderr.decode(errors="replace"), done[0] if done else None, d


def run(part, seed, tier, tmp, deadline, build, san):
    worker, mod = build("plain"), build(part["flavour"])
    n, mode = part[tier], part["mode"]
    env = env_for(mod, san, mode)
    per = (n + 7) // 8

    def shard(k):
        rc, err, done, d = record(worker, seed, k * per, (k + 1) * per, tmp, san, "scen%d" % k)
        v, sums, seen, inc = [], [], set(), []
        if rc or not done:
            v.append(dict(part=part, kind="recording-died", index=-1, descr="the C++ side died: %s" % err[:2000]))
            return v, sums, seen, inc
        # in slices, so that a crash loses little
        at = 0
        lines = open(d + "/scen.jsonl").read().splitlines(True)
        tries = 0
        while at < len(lines) and tries < 4:
            tries += 1
            with open(d + "/slice.jsonl", "w") as h:
                h.writelines(lines[at:])
            p = subprocess.Popen(["/usr/bin/python3", V + "/tools/pyrun.py", d + "/slice.jsonl", "0", "1", mode], env=env, stdout=subprocess.PIPE, stderr=open(d + "/err", "wb"), cwd=d)
            try:
                o, _ = p.communicate(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
                inc.append("python replay out of time")
            last, fin = None, None
            for line in o.decode(errors="replace").splitlines():
                try:
                    x = json.loads(line)
                except ValueError:
                    continue
                if "at" in x:
                    last = x["at"]
                elif "viol" in x:
                    v.append(dict(part=part, kind=x["viol"], index=x["index"], descr=x["descr"]))
                elif x.get("done"):
                    fin = x
            if fin:
                sums.append(dict(evals=fin["ops"], skipped=0, cnt=dict(fin["cnt"], scenarios=fin["scenarios"]), samples=[lines[at][:500]]))
                import hashlib
                seen.update(int(hashlib.md5(l.encode()).hexdigest()[:15], 16) for l in lines[at:])
                break
            if inc:
                break
            err = open(d + "/err", errors="replace").read()
            if last is None:
                raise RuntimeError("python replay failed to start: " + err[-1500:])
            m = re.search(r"AddressSanitizer: ([\w-]+)|runtime error: (.*)", err)
            v.append(dict(part=part, kind="python-crash:" + ((m.group(1) or "undefined-behaviour") if m else "exit-%s" % p.returncode), index=last, descr=err[:3000]))
            at += last - (k * per + at) + 1
        shutil.rmtree(d, ignore_errors=True)
        return v, sums, seen, inc
    V_, S_, N_, I_ = [], [], set(), []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(shard, range(8)):
            V_ += r[0]
            S_ += r[1]
            N_ |= r[2]
            I_ += r[3]
    return V_, S_, N_, I_


def replay(d, tmp, build, san):
    worker, mod = build("plain"), build(d["part"]["flavour"])
    lo = max(0, d["index"])
    rc, err, done, sd = record(worker, d["seed"], lo, lo + 1, tmp, san)
    p = subprocess.run(["/usr/bin/python3", V + "/tools/pyrun.py", sd + "/scen.jsonl", "0", "1", d["part"]["mode"]], env=env_for(mod, san, d["part"]["mode"]), stdout=subprocess.PIPE)
    o = p.stdout.decode()
    for line in o.splitlines():
        if '"viol"' in line:
            print(json.loads(line)["descr"])
    bad = rc or p.returncode or '"viol"' in o
    print("violated" if bad else "held")
    return 1 if bad else 0
