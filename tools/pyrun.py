"""pyrun.py SCENARIOS SHARD SHARDS [ONLY]   perform recorded scenarios on the stlrom module (on sys.path) and compare.

Prints one JSON line per disagreement, and a summary line."""
import contextlib, copy, ctypes, gc, io, json, math, os, sys, tempfile, threading
import stlrom


class Sub(stlrom.STLDriver):          # users may subclass
    def __init__(self):
        super().__init__()
        self.extra = [1, 2, 3]

    def rob(self, *a):
        return self.get_online_rob(*a)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return True
        return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * (1 + abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


LIBC = ctypes.CDLL(None)


def shown(f):
    """what f prints on standard output, by C++ or by Python"""
    with tempfile.TemporaryFile() as t:
        LIBC.fflush(None)
        old = os.dup(1)
        os.dup2(t.fileno(), 1)
        s = io.StringIO()
        try:
            with contextlib.redirect_stdout(s):
                f()
            LIBC.fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        t.seek(0)
        return s.getvalue() or t.read().decode()


CP = [lambda o: o.copy(), copy.copy, copy.deepcopy]


class Player:
    def __init__(self, tmp):
        self.o = {}
        self.kept = []
        self.tmp = tmp

    def sig(self, s):
        """the samples of a signal; the list stays as it is whatever becomes of the signal"""
        l = s.get_samples_list()
        v = [[q.time, q.value, q.derivative] for q in l]
        if len(self.kept) < 12:
            self.kept.append((l, v))
        return [[s.begin_time, s.end_time]] + v

    def kept_differ(self):
        return next(([[q.time, q.value, q.derivative] for q in l] for l, v in self.kept if not same([[q.time, q.value, q.derivative] for q in l], v)), None)

    def do(self, op):
        k, a, o = op[0], op[1:], self.o
        if k == "reset":
            stlrom.Signal.set_semantics("SPACE"); stlrom.Signal.set_interpol("LINEAR"); stlrom.Signal.set_BigM(10000.)
        elif k == "D":
            o[a[0]] = Sub() if a[1] == 0 else stlrom.STLDriver()
        elif k == "parse":
            return o[a[0]].parse_string(a[1])
        elif k == "parsefile":
            f = os.path.join(self.tmp, "spec.stl")
            with open(f, "w", newline="") as h:
                h.write(a[1])
            return o[a[0]].parse_file(f)
        elif k == "names":
            return o[a[0]].get_signals_names()
        elif k == "add":
            return o[a[0]].add_sample(a[1])
        elif k == "rob":
            d, f, t, st = o[a[0]], a[1], a[2], a[3]
            return d.get_online_rob(f, t) if st == 0 else d.get_online_rob(t0=t, phi_in=f) if st == 1 else d.get_online_rob(f) if st == 2 else d.get_online_rob()
        elif k == "param":
            return o[a[0]].set_param(a[1], a[2])
        elif k == "getparam":
            return o[a[0]].get_param(a[1])
        elif k == "sem":
            return o[a[0]].set_semantics(a[1])
        elif k == "getsem":
            return o[a[0]].get_semantics()
        elif k == "interp":
            return o[a[0]].set_interpol(a[1])
        elif k == "getinterp":
            return o[a[0]].get_interpol()
        elif k == "copy":
            o[a[0]] = CP[a[2]](o[a[1]])
        elif k == "del":
            del o[a[0]]
            gc.collect(0)
        elif k == "mon":
            o[a[0]] = o[a[1]].get_monitor(a[2])
        elif k == "eval":
            return o[a[0]].eval_rob(*a[1])
        elif k == "lowup":
            m = o[a[0]]
            return [m.rob, m.lower_rob, m.upper_rob, m.get_lower_rob(), m.get_upper_rob()]
        elif k == "setev":
            return o[a[0]].set_eval_time(a[1], a[2])
        elif k == "settimes":
            o[a[0]].start_time = a[1]
            o[a[0]].end_time = a[2]
        elif k == "times":
            return [o[a[0]].start_time, o[a[0]].end_time]
        elif k == "sig":
            o[a[0]] = o[a[1]].get_signal()
            return self.sig(o[a[0]])
        elif k == "repr":
            return repr(o[a[0]])
        elif k == "data":
            return o[a[0]].data
        elif k == "setdata":
            o[a[0]].data = a[1]
        elif k == "S":
            o[a[0]] = stlrom.Signal()
        elif k == "app":
            return o[a[0]].append_sample(*a[1:])
        elif k == "sop":
            z = o[a[0]] = o[a[2]] if a[0] == a[2] else stlrom.Signal()
            f = getattr(z, "compute_" + a[1])
            f(o[a[2]], o[a[3]]) if a[1] in ("and", "or") else f(o[a[2]])
            return self.sig(z)
        elif k == "samples":
            return self.sig(o[a[0]])
        elif k == "setend":
            s = o[a[0]]
            l = s.get_samples_list()
            if a[1] >= (l[-1].time if l else 0):
                s.end_time = a[1]
            return self.sig(s)
        elif k == "sample":
            t, v, d, t2, v2, d2 = a[0]
            x, y = stlrom.Sample(t, v, d), stlrom.Sample(t2, v2, d2)
            c = CP[int(abs(t)) % 3](x)
            p = stlrom.Point(t, v)
            q = CP[int(abs(v)) % 3](p)
            p.value = 77.
            if not same([q.time, q.value, p.time, p.value], [t, v, t, 77.]):
                return "copied point differs"
            r = [x.value_at(t2), None, c.time, c.value, c.derivative]
            try:
                r[1] = x.time_intersect(y)
            finally:
                x.value = 1e300
            if not same([c.time, c.value, c.derivative], [t, v, d]):
                return "copied sample follows the original"
            return r
        elif k == "bigm":
            stlrom.Signal.set_BigM(a[0])
            return stlrom.Signal.get_BigM()
        elif k == "ssem":
            stlrom.Signal.set_semantics(a[0])
        elif k == "sgetsem":
            return stlrom.Signal.get_semantics()
        elif k == "sint":
            stlrom.Signal.set_interpol(a[0])
        elif k == "sgetint":
            return stlrom.Signal.get_interpol()
        elif k == "disp":
            return shown(o[a[0]].disp)
        elif k == "dispf":
            return shown(o[a[0]].display_formula)
        elif k == "pmon":
            return shown(lambda: stlrom.print_monitor(o[a[0]]))
        elif k == "ppoint":
            return shown(stlrom.Point(*a).print_point)
        elif k == "psample":
            return shown(stlrom.Sample(*a).print_sample)
        elif k == "rand":
            t = stlrom.rand_trace_data(*a)
            return [len(t)] + [x for w in t for x in (len(w), w[0])]
        elif k == "mon0":
            o[a[0]] = stlrom.STLMonitor()
        elif k == "addt":
            w = [int(x) for x in a[1]]
            return o[a[0]].add_sample(tuple(a[1]) if a[2] == 0 else w if a[2] == 1 else tuple(w) if a[2] == 2 else [float(x) for x in w])
        elif k == "wrong":
            return self.wrong(o[a[0]], o.get(a[1]), o.get(a[2]), a[3])
        else:
            raise SystemError("unknown op " + k)

    def wrong(self, d, m, s, n):
        calls = [lambda: d.add_sample(5), lambda: d.add_sample(["a", 1.]), lambda: d.add_sample("text"), lambda: d.add_sample(), lambda: d.add_sample([None, 1.]),
                 lambda: d.parse_string(5), lambda: d.parse_string(), lambda: d.parse_string(None), lambda: d.parse_file(3.5), lambda: d.get_monitor(), lambda: d.get_monitor(7),
                 lambda: d.get_online_rob(3, 0.), lambda: d.get_online_rob("phi", "x"), lambda: d.get_online_rob("phi", None), lambda: d.get_online_rob("phi", 0., 1.), lambda: d.get_online_rob(phi="phi"),
                 lambda: d.set_param("p"), lambda: d.set_param("p", "1"), lambda: d.set_param(1, 1.), lambda: d.get_param(1), lambda: d.set_semantics(0), lambda: d.set_interpol(None),
                 lambda: setattr(d, "data", 5), lambda: setattr(d, "data", [5]), lambda: setattr(d, "data", [["x"]]), lambda: setattr(d, "data", None),
                 lambda: stlrom.STLDriver(1), lambda: stlrom.STLMonitor("phi"), lambda: stlrom.Sample(1., 2.), lambda: stlrom.Sample("a", 1., 2.), lambda: stlrom.Point(1.),
                 lambda: stlrom.Signal.set_BigM("10"), lambda: stlrom.rand_trace_data(1), lambda: stlrom.rand_trace_data(1.5, 2), lambda: stlrom.print_monitor(5)]
        if m is not None:
            calls += [lambda: m.eval_rob("a"), lambda: m.eval_rob(1., None), lambda: m.eval_rob(1., 2., 3.), lambda: m.set_eval_time(1.), lambda: m.add_sample({}.items), lambda: m.set_param("p", []),
                      lambda: setattr(m, "start_time", "0"), lambda: setattr(m, "data", 1.), lambda: setattr(m, "lower_rob", None), lambda: m.get_signal(1)]
        if s is not None:
            calls += [lambda: s.append_sample(1.), lambda: s.append_sample("a", 1.), lambda: s.append_sample(1., 2., 3., 4.), lambda: s.compute_and(s), lambda: s.compute_and(s, None), lambda: s.compute_not(5),
                      lambda: s.compute_or(None, s), lambda: setattr(s, "end_time", "1"), lambda: setattr(s, "begin_time", [0.])]
        for i in range(3):
            try:
                calls[(n + i * 7) % len(calls)]()
            except TypeError:
                continue
            return "no TypeError for call %d" % ((n + i * 7) % len(calls))
        return "TypeError"

    def play(self, ops):
        for n, (op, want) in enumerate(ops):
            try:
                got = self.do(op)
                if isinstance(want, dict) and got is not None or not isinstance(want, dict) and not same(got, want):
                    return n, got, want
                if isinstance(want, dict):
                    return n, got, want
            except (ValueError, IndexError, RuntimeError) as e:
                if isinstance(e, SystemError) or not isinstance(want, dict) or want["exc"] != type(e).__name__:
                    return n, "%s: %s" % (type(e).__name__, e), want
            if op[0] in ("del", "app", "setend", "sop", "sig"):
                bad = self.kept_differ()
                if bad is not None:
                    return n, bad, "samples listed earlier unchanged"
        return None


def allocated():
    f = ctypes.CDLL(None).live_cpp_blocks
    f.restype = ctypes.c_long
    return f()


def threads(rng, report):
    """Each thread uses drivers of its own; the interpreter lock makes each call atomic."""
    n, errs = 4, []
    specs = []
    for i in range(n):
        th = rng.randint(-3, 3)
        h = rng.randint(1, 4)
        rows = [[j * 0.5, rng.randint(-8, 8) / 2, rng.randint(-8, 8) / 2] for j in range(40)]
        specs.append((["SPACE", "LEFT_TIME", "RIGHT_TIME"][i % 3], ["LINEAR", "PREVIOUS"][i % 2],
                      "signal x, y\nphi := (x[t] > %d) until_[0, %d] (ev_[0, %d] (y[t] > %d))" % (th, h, h, -th), rows))

    def one(s, k):
        d = stlrom.STLDriver()
        d.parse_string(s[2])
        d.set_semantics(s[0])
        d.set_interpol(s[1])
        for q in s[3]:
            d.add_sample(q)
        m = d.get_monitor("phi")
        return [d.get_online_rob("phi", j * 0.5) for j in range(k)] + [m.eval_rob(j * 0.5) for j in range(k)]
    want = [one(s, 12) for s in specs]

    def body(i):
        for _ in range(3):
            got = one(specs[i], 12)
            if not same(got, want[i]):
                errs.append((specs[i][2], specs[i][0], specs[i][1]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    if errs:
        report("threads-interfere", "threads with drivers of their own: results differ from those of a single thread\n" + str(errs[0]))


def main():
    import random
    f, shard, shards = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    mode = sys.argv[4] if len(sys.argv) > 4 else "all"
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)     # the library prints
    nops = nscen = nviol = grown = 0
    cnt = {}
    kinds = {}

    def report(kind, descr, index=-1):
        nonlocal nviol
        nviol += 1
        kinds[kind] = kinds.get(kind, 0) + 1
        if kinds[kind] <= 3:
            out.write(json.dumps(dict(viol=kind, index=index, descr=descr)) + "\n")
            out.flush()
    with tempfile.TemporaryDirectory() as tmp:
        for n, line in enumerate(open(f)):
            if n % shards != shard:
                continue
            index, ops = json.loads(line)
            out.write(json.dumps(dict(at=index)) + "\n")
            out.flush()
            nscen += 1
            if mode == "all":
                p = Player(tmp)
                bad = p.play(ops)
                nops += len(ops)
                for op, w in ops:
                    cnt[op[0]] = cnt.get(op[0], 0) + 1
                if bad:
                    i, got, want = bad
                    report("python-differs:" + ops[i][0][0], "calls:\n" + "\n".join(str(x[0]) for x in ops[max(0, i - 30):i + 1]) + "\nthe last one gives %r, in C++ %r" % (got, want), index)
                p = None
                if n % 40 == 0:
                    threads(random.Random(index), lambda k, d: report(k, d, index))
                    cnt["thread groups"] = cnt.get("thread groups", 0) + 1
            else:               # the same scenario again and again does not accumulate memory
                xs = []
                for k in range(5):
                    p = Player(tmp)
                    p.play(ops)
                    p = None
                    gc.collect(0)
                    xs.append(allocated())
                nops += 5 * len(ops)
                for op, w in ops:
                    cnt[op[0]] = cnt.get(op[0], 0) + 5
                if all(xs[i + 1] > xs[i] for i in range(4)):
                    gc.collect()
                    a = allocated()
                    for k in range(10):
                        Player(tmp).play(ops)
                    gc.collect()
                    if allocated() - a >= 10:
                        report("python-leak", "%.1f C++ blocks more after each run of\n%s" % ((allocated() - a) / 10., "\n".join(str(x[0]) for x in ops[:60])), index)
    out.write(json.dumps(dict(done=1, scenarios=nscen, ops=nops, nviol=nviol, cnt=cnt)) + "\n")
    out.flush()


main()
