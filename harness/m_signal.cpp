// C14: the whole signal returned after an evaluation over an interval. C15: the operations of Signal, pointwise.
#include "evalcheck.hpp"
using namespace mon;
using STLRom::Signal;
using STLRom::Sample;
namespace {
const double TINY = 1. / (1 << 30);
double at(const Signal &s, double t) {
    size_t k = 0;
    for (size_t i = 0; i < s.size(); i++) if (s[i].time <= t) k = i;
    return s[k].valueAt(t);
}
PL pl(const Signal &s) {
    PL p;
    for (auto &q : s) p.s.push_back({q.time, q.value, q.derivative});
    p.end = s.endTime + TINY;
    return p;
}
std::string show(const Signal &s) {
    std::string o = "on [" + dnum(s.beginTime) + "," + dnum(s.endTime) + "]:";
    for (auto &q : s) o += " (" + dnum(q.time) + "," + dnum(q.value) + "," + dnum(q.derivative) + ")";
    return o;
}
std::string form_ok(const Signal &s, bool strict = true) {
    if (s.empty()) return "empty-result";
    if (s.front().time != s.beginTime) return "first-sample-is-not-at-begin-time";
    if (s.back().time > s.endTime + 1e-9) return "sample-after-end-time";
    for (size_t i = 0; i < s.size(); i++) {
        if (!std::isfinite(s[i].time) || !std::isfinite(s[i].value) || !std::isfinite(s[i].derivative)) return "not-finite";
        if (i && !(strict ? s[i].time > s[i - 1].time : s[i].time >= s[i - 1].time - 1e-9)) return "sample-times-do-not-increase";
    }
    return "";
}
std::vector<double> probes(Rng &r, const Signal &z, const std::vector<const Signal *> &in, double lo, double hi, int max) {
    std::vector<double> p{lo, hi};
    for (auto &q : z) p.push_back(q.time);
    for (auto s : in) for (auto &q : *s) p.push_back(q.time);
    size_t n = p.size();
    for (size_t i = 0; i + 1 < n; i++) p.push_back((p[i] + p[i + 1]) / 2);
    for (int i = 0; i < 4; i++) p.push_back(lo + r.unit() * (hi - lo));
    std::vector<double> o;
    for (double t : p) if (t >= lo && t <= hi) o.push_back(t);
    for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[r.below((int)i + 1)]);
    if ((int)o.size() > max) o.resize(max);
    o.push_back(lo); o.push_back(hi);
    return o;
}
// does v agree at t with the function whose superlevel sets are given by `set`?
typedef std::function<Set(double)> Level;
bool agrees(const Level &set, double v, double t) {
    double e = 1e-6 * (1 + std::fabs(v));
    Set lo = set(v - e), hi = set(v + e);
    if (smem(lo, t) && !smem(hi, t)) return true;
    // at a jump, whose place may be computed with rounding, either side's value is accepted; grid points are exact
    if (t * 64 == std::floor(t * 64)) return false;
    for (double d : {-1e-7, 1e-7}) if (smem(lo, t + d) && !smem(hi, t + d)) return true;
    return false;
}
double expect(const Level &set, double t) {
    double lo = -1e7, hi = 1e7;
    for (int i = 0; i < 80; i++) { double m = (lo + hi) / 2; if (smem(set(m), t)) lo = m; else hi = m; }
    return (lo + hi) / 2;
}
Signal random_signal(Rng &r, double begin, double &end, bool linear) {
    int n = r.range(1, 9);
    std::vector<double> T, V;
    double t = begin;
    for (int i = 0; i < n; i++) {
        T.push_back(t);
        V.push_back(r.chance(25) ? (double)r.range(-2, 2) : r.range(-20, 20) * 0.25);
        if (i && r.chance(15)) V[i] = V[i - 1];
        t += r.range(1, 8) * 0.25;
    }
    end = T.back();
    Signal::interpol = linear ? STLRom::Interpol::LINEAR : STLRom::Interpol::PREVIOUS;
    if (r.chance(50)) return Signal(T.data(), V.data(), n);
    Signal s;
    for (int i = 0; i < n; i++) {
        s.appendSample(T[i], V[i]);
        if (r.chance(10)) s.appendSample(T[i] - r.below(2) * 0.125, 77.);   // not later: ignored
    }
    return s;
}
}
// how signals come to be: constructors, appended samples and signals, cut ends
MODULE(signal_build) {
    bool linear = r.chance(60);
    Signal::interpol = linear ? STLRom::Interpol::LINEAR : STLRom::Interpol::PREVIOUS;
    int n = r.range(1, 12);
    std::vector<double> T, V;
    double t = r.range(-20, 20) * 0.25;
    for (int i = 0; i < n; i++) { T.push_back(t); V.push_back(i && r.chance(20) ? V[i - 1] : r.range(-20, 20) * 0.25); t += r.range(1, 8) * 0.25; }
    auto value = [&](double u) {
        size_t k = 0;
        while (k + 1 < T.size() && T[k + 1] <= u) k++;
        if (!linear || k + 1 == T.size()) return V[k];
        return V[k] + (V[k + 1] - V[k]) * ((u - T[k]) / (T[k + 1] - T[k]));
    };
    Signal z;
    std::string how;
    double inside = T[0] + r.unit() * (T[n - 1] - T[0]);
    int cut = r.range(0, n);
    switch (r.below(6)) {
    case 0: how = "Signal(T, V, n)"; z = Signal(T.data(), V.data(), n); break;
    case 1: how = "appendSample";
        if (r.chance(40)) { z.appendSample(99, 99); z.clear(); how += " on a cleared signal"; z.beginTime = z.endTime = 0; }
        for (int i = 0; i < n; i++) z.appendSample(T[i], V[i]);
        break;
    case 2: how = "appendSample with late ones in between";
        for (int i = 0; i < n; i++) { z.appendSample(T[i], V[i]); for (int q = r.below(3); q > 0; q--) z.appendSample(T[i] - r.below(3) * 0.125, 55.); }
        break;
    case 3: { how = "appendSignal of the rest";
        Signal a, b;
        for (int i = 0; i < cut; i++) a.appendSample(T[i], V[i]);
        for (int i = cut; i < n; i++) b.appendSample(T[i], V[i]);
        std::string before = show(b);
        a.appendSignal(b);
        if (show(b) != before) { R.fail("argument-changed", before); return; }
        z = a;
        break; }
    case 4: { how = "Signal(t, v, 1) and appended samples";
        z = Signal(T[0], V[0], 1);
        for (int i = 1; i < n; i++) z.appendSample(T[i], V[i]);
        break; }
    case 5: { how = "a slope after the last sample";
        double d = linear ? r.range(-8, 8) * 0.5 : 0.;
        for (int i = 0; i < n; i++) z.appendSample(T[i], V[i], d);
        if (z.size() && z.back().derivative != d) { R.fail("slope-lost", how + " " + show(z)); return; }
        break; }
    }
    R.evals++;
    R.count(how.substr(0, 22));
    std::string full = how + (linear ? " LINEAR" : " PREVIOUS");
    for (int i = 0; i < n; i++) full += " (" + num(T[i]) + "," + num(V[i]) + ")";
    full += "\n= " + show(z);
    std::string bad = form_ok(z);
    if (!bad.empty()) { R.fail(bad, full); return; }
    if (z.beginTime != T[0] || z.endTime != T[n - 1] || z.size() != (size_t)n) { R.fail("built-signal-differs", full); return; }
    auto &q = z.getSamplesDeque();
    for (int i = 0; i < n; i++) if (q[i].time != T[i] || q[i].value != V[i]) { R.fail("built-signal-differs", full); return; }
    std::vector<double> at_{inside};
    for (int i = 0; i + 1 < n; i++) at_.push_back((T[i] + T[i + 1]) / 2);
    for (double u : at_) if (std::fabs(at(z, u) - value(u)) > 1e-9 * (1 + std::fabs(value(u)))) { R.fail("built-signal-differs", full + "\nat " + dnum(u) + ": " + dnum(at(z, u)) + ", expected " + dnum(value(u))); return; }
    // unknown values at the end are removed, the others are kept
    Signal w = z;
    int inf = r.below(4);
    for (int i = 0; i < inf; i++) w.push_back(r.chance(50) ? Sample(z.endTime + 1 + i, r.chance(50) ? Signal::BigM : -Signal::BigM, 0) : Sample(z.endTime + 1 + i, 1, r.chance(50) ? Signal::BigM : -Signal::BigM));
    w.removeInf();
    bool same = w.size() == z.size();
    for (size_t i = 0; same && i < w.size(); i++) same = w[i].time == z[i].time && w[i].value == z[i].value && w[i].derivative == z[i].derivative;
    if (!same) { R.fail("removeInf-differs", full + "\nand " + std::to_string(inf) + " infinite ones, without them: " + show(w)); return; }
    // a sample at the end time
    w = z;
    w.endTime += 0.5;
    w.addLastSample();
    w.addLastSample();
    if (w.size() != z.size() + 1 || w.back().time != z.endTime + 0.5 || std::fabs(w.back().value - z.back().valueAt(z.endTime + 0.5)) > 1e-9) { R.fail("last-sample-differs", full + "\n" + show(w)); return; }
    if (n > 1) {
        Sample a(T[0], V[0], r.range(-8, 8) * 0.5), b(T[1], V[1], r.range(-8, 8) * 0.5);
        if (std::fabs(a.valueAt(T[1]) - (V[0] + a.derivative * (T[1] - T[0]))) > 1e-9) { R.fail("value-at-differs", full); return; }
        if (a.derivative != b.derivative) { double u = a.timeIntersect(b); if (std::fabs(a.valueAt(u) - b.valueAt(u)) > 1e-6) { R.fail("intersection-differs", full); return; } }
        R.nontrivial(hash_str(full));
    }
}
MODULE(signal_ops) {
    bool linear = r.chance(65);
    std::vector<Signal> pool;
    std::string log;
    double b0 = r.chance(50) ? 0 : r.range(-12, 12) * 0.25, e0 = 0;
    int base = r.range(1, 3);
    for (int i = 0; i < base; i++) {
        double b = r.chance(60) ? b0 : b0 + r.range(-2, 4) * 0.25;
        pool.push_back(random_signal(r, b, e0, linear));
        log += "S" + std::to_string(i) + " " + show(pool.back()) + "\n";
        std::string bad = form_ok(pool.back());
        if (!bad.empty()) { R.fail("input:" + bad, log); return; }
    }
    int steps = r.range(1, 6);
    for (int k = 0; k < steps; k++) {
        int ix = r.below((int)pool.size()), iy = r.below((int)pool.size());
        const Signal &x = pool[ix], &y = pool[iy];
        Signal z;
        if (r.chance(50)) z = pool[r.below((int)pool.size())];    // a target with other content: every operation starts by clearing it
        double a = r.chance(40) ? 0 : r.range(0, 16) * 0.25, b = a + (r.chance(15) ? 0 : r.range(0, 24) * 0.25);
        if (r.chance(8)) b = a + 200;
        double lo = 0, hi = 0;
        Level L;
        std::string op, arg = "S" + std::to_string(ix), arg2 = arg + ", S" + std::to_string(iy);
        PL px = pl(x), py = pl(y);
        double jb = std::max(x.beginTime, y.beginTime), je = std::min(x.endTime, y.endTime);
        const Signal xin = x, yin = y;
        bool bin = false;
        // superlevel sets restricted to the domain of each signal (nothing is known elsewhere)
        auto dom = [](const PL &p, double c) { return sinter(above(p, c, false), Set{{p.s.front().t, p.end}}); };
        auto ndom = [](const PL &p, double c) { return sinter(scomp(above(p, c, false)), Set{{p.s.front().t, p.end}}); };   // values < c, on the domain
        int what = r.below(17);
        if (jb > je && (what == 1 || what == 2 || what == 3 || what == 9 || what == 10)) continue;
        switch (what) {
        case 0: op = "compute_not(" + arg + ")"; z.compute_not(x); lo = x.beginTime; hi = x.endTime; L = [=](double c) { return scomp(above(px, -c, false)); }; break;
        case 1: op = "compute_and(" + arg2 + ")"; z.compute_and(x, y); lo = jb; hi = je; bin = true; L = [=](double c) { return sinter(above(px, c, false), above(py, c, false)); }; break;
        case 2: op = "compute_or(" + arg2 + ")"; z.compute_or(x, y); lo = jb; hi = je; bin = true; L = [=](double c) { return sunion(above(px, c, false), above(py, c, false)); }; break;
        case 3: op = "compute_implies(" + arg2 + ")"; z.compute_implies(x, y); lo = jb; hi = je; bin = true; L = [=](double c) { return sunion(scomp(above(px, -c, false)), above(py, c, false)); }; break;
        case 4: op = "compute_eventually(" + arg + ")"; z.compute_eventually(x); lo = x.beginTime; hi = x.endTime; L = [=](double c) { return sev(dom(px, c), 0, 1e6); }; break;
        case 5: op = "compute_globally(" + arg + ")"; z.compute_globally(x); lo = x.beginTime; hi = x.endTime; L = [=](double c) { return scomp(sev(ndom(px, c), 0, 1e6)); }; break;
        case 6: { if (b - a <= 0) { op = "compute_timed_eventually(" + arg + ", " + num(a) + ", " + num(a) + ")"; }
            op = "compute_timed_eventually(" + arg + ", " + num(a) + ", " + num(b) + ")"; z.compute_timed_eventually(x, a, b); lo = x.beginTime - a; hi = x.endTime - a; L = [=](double c) { return sev(dom(px, c), a, b); }; break; }
        case 7: op = "compute_timed_globally(" + arg + ", " + num(a) + ", " + num(b) + ")"; z.compute_timed_globally(x, a, b); lo = x.beginTime - a; hi = x.endTime - a; L = [=](double c) { return scomp(sev(ndom(px, c), a, b)); }; break;
        case 8: { double w = b - a; if (w <= 0) w = 0.25;
            if (w > x.endTime - x.beginTime) continue;
            if (r.chance(50)) { op = "compute_bounded_eventually(" + arg + ", " + num(w) + ")"; z.compute_bounded_eventually(x, w); L = [=](double c) { return sev(dom(px, c), 0, w); }; }
            else { op = "compute_bounded_globally(" + arg + ", " + num(w) + ")"; z.compute_bounded_globally(x, w); L = [=](double c) { return scomp(sev(ndom(px, c), 0, w)); }; }
            lo = x.beginTime; hi = x.endTime; break; }
        case 9: op = "compute_until(" + arg2 + ")"; z.compute_until(x, y); lo = jb; hi = je; bin = true; { double e = je; L = [=](double c) { Set d{{-INF, e + TINY}}; return suntil(sinter(above(px, c, false), d), sinter(above(py, c, false), d), 0, 1e6); }; } break;
        case 10: if (jb + b > je || x.beginTime != y.beginTime) continue;
            op = "compute_timed_until(" + arg2 + ", " + num(a) + ", " + num(b) + ")"; z.compute_timed_until(x, y, a, b); lo = jb; hi = je - b; bin = true; L = [=](double c) { return suntil(above(px, c, false), above(py, c, false), a, b); }; break;
        case 11: op = "simplify(" + arg + ")"; z = x; z.simplify(); lo = x.beginTime; hi = x.endTime; L = [=](double c) { return above(px, c, false); }; if (z.size() > x.size() + 1) { R.fail("simplify-grows", log + op + "\n" + show(z)); return; } break;
        case 12: op = "shift(" + arg + ", " + num(a - 1) + ")"; z = x; z.shift(a - 1); lo = x.beginTime + a - 1; hi = x.endTime + a - 1; L = [=](double c) { Set s = above(px, c, false); for (auto &i : s) i.first += a - 1, i.second += a - 1; return s; }; break;
        case 13: {   // cut, or extend at the end with a value
            double s = x.beginTime + r.range(0, 8) * 0.25, t = s + r.range(0, 16) * 0.25, v = (double)r.range(-3, 3), xe = x.endTime;
            if (s > x.endTime) continue;
            op = "resize(" + arg + ", " + num(s) + ", " + num(t) + ", " + num(v) + ")";
            z = x; z.resize(s, t, v); lo = s; hi = t;
            L = [=](double c) { Set q = sinter(above(px, c, false), Set{{-INF, xe < t ? xe : px.end}}); if (xe < t && v >= c) q = sunion(q, Set{{xe, INF}}); return q; };
            break; }
        case 14: {
            op = "compute_boolean(" + arg + ")"; z.compute_boolean(x); lo = x.beginTime; hi = x.endTime;
            std::string bad = form_ok(z);
            if (!bad.empty() || z.beginTime != lo || z.endTime != hi) { R.fail(bad.empty() ? "wrong-domain" : bad, log + op + " = " + show(z)); return; }
            for (double t : probes(r, z, {&x}, lo, hi, 20)) {
                double v = at(xin, t), w = at(z, t);
                if (t == hi && hi > lo) continue;   // the last instant spans no time
                if (std::fabs(v) > 1e-6 ? w != (v > 0 ? 1 : 0) : (w != 0 && w != 1)) { R.fail("boolean-differs", log + op + " = " + show(z) + "\nat " + dnum(t) + ": " + dnum(w) + " for the value " + dnum(v)); return; }
            }
            break; }
        case 15: case 16: {
            bool left = what == 15;
            op = std::string(left ? "compute_left_time_rob(" : "compute_right_time_rob(") + arg + ")";
            if (left) z.compute_left_time_rob(x); else z.compute_right_time_rob(x);
            bool graze = false;      // a zero reached up to rounding
            for (auto &q : x) if (q.value != 0 && std::fabs(q.value) < 1e-9) graze = true;
            if (graze) { R.count("undecided: grazes zero"); continue; }
            Signal B;
            B.compute_boolean(x);
            lo = x.beginTime; hi = x.endTime;
            std::string bad = form_ok(z);
            if (!bad.empty() || z.beginTime != lo || z.endTime != hi) { R.fail(bad.empty() ? "wrong-domain" : bad, log + op + " = " + show(z)); return; }
            for (double t : probes(r, z, {&x}, lo, hi, 20)) {
                double ch = left ? lo : hi, v = at(B, t), w = at(z, t);
                for (size_t i = 1; i < B.size(); i++) {
                    double q = B[i].time;
                    if (B[i].value == B[i - 1].value) continue;
                    if (left ? q <= t && q > ch : q > t && q < ch) ch = q;
                }
                double ex = std::fabs(t - ch) * (v > 0 ? 1 : -1);
                if (std::fabs(ex - w) > 1e-6) { R.fail(left ? "left-time-differs" : "right-time-differs", log + op + " = " + show(z) + "\nat " + dnum(t) + ": " + dnum(w) + ", expected " + dnum(ex)); return; }
            }
            break; }
        }
        // the target may be an operand
        if (r.chance(30) && what != 8 && what != 11 && what != 12 && what != 13) {
            int side = what == 1 || what == 2 || what == 3 || what == 9 || what == 10 ? r.below(3) : 0;
            if (side == 2 && ix != iy) side = 0;
            Signal w = side == 1 ? yin : xin;
            const Signal &p = side == 1 ? xin : w, &q = side == 0 ? yin : w;
            switch (what) {
            case 0: w.compute_not(p); break;
            case 1: w.compute_and(p, q); break;
            case 2: w.compute_or(p, q); break;
            case 3: w.compute_implies(p, q); break;
            case 4: w.compute_eventually(p); break;
            case 5: w.compute_globally(p); break;
            case 6: w.compute_timed_eventually(p, a, b); break;
            case 7: w.compute_timed_globally(p, a, b); break;
            case 9: w.compute_until(p, q); break;
            case 10: w.compute_timed_until(p, q, a, b); break;
            case 14: w.compute_boolean(p); break;
            case 15: w.compute_left_time_rob(p); break;
            case 16: w.compute_right_time_rob(p); break;
            }
            R.count("target among the operands");
            if (show(w) != show(z) || w.beginTime != z.beginTime || w.endTime != z.endTime) { R.fail("target-among-operands", log + op + " = " + show(z) + "\nwith the target among the operands: " + show(w)); return; }
        }
        R.evals++;
        R.count(op.substr(0, op.find('(')));
        std::string full = log + op + " = " + show(z);
        if (L) {
            std::string bad = form_ok(z, false);
            if (!bad.empty()) { R.fail(bad, full); return; }
            if (what == 10 ? z.beginTime > lo : z.beginTime != lo || z.endTime != hi) { R.fail("wrong-domain", full + "\nexpected [" + dnum(lo) + "," + dnum(hi) + "]"); return; }
            if (what == 10 && z.endTime < hi) { R.fail("wrong-domain", full + "\nexpected to reach " + dnum(hi)); return; }
            std::vector<const Signal *> in{&xin};
            if (bin) in.push_back(&yin);
            for (double t : probes(r, z, in, lo, hi, 14)) {
                R.count("points compared");
                double w = at(z, t);
                if (!agrees(L, w, t)) { R.fail("value-differs", full + "\nat " + dnum(t) + ": " + dnum(w) + ", expected " + dnum(expect(L, t))); return; }
            }
        }
        if (!(what == 10)) { if (x.size() != xin.size() || y.size() != yin.size()) { R.fail("argument-changed", full); return; } }
        if (what != 10 && z.size() < 60 && form_ok(z).empty()) { log += "S" + std::to_string(pool.size()) + " = " + op + " = " + show(z) + "\n"; pool.push_back(z); }
        if (xin.size() > 1) R.nontrivial(hash_str(full));
        if (full.size() < 400) R.sample(full);
    }
}
// ---------------------------------------------------------------- get_signal
MODULE(whole_signal) {
    odd_names(r);
    Prof p;
    p.linear = r.chance(60);
    p.sem = r.chance(75) ? SPACE : r.chance(50) ? LEFT : RIGHT;
    p.max_depth = 3;
    p.dec_pct = 12;
    p.scales = true;
    p.huge = 1500;
    p.off_grid = p.sem != SPACE && r.chance(40);
    Case c = gen_case(r, p);
    if (!eligible(c)) { R.skipped++; return; }
    double room = c.tr.back()[0] - c.t0 - horizon(c.f, c.par);
    if (r.chance(60)) {   // extend the data so that the evaluation interval has room
        std::vector<double> row = c.tr.back();
        int n = r.range(1, 10);
        for (int i = 0; i < n; i++) { row[0] += r.range(1, 4) * 0.25; for (size_t q = 1; q < row.size(); q++) row[q] = r.range(-16, 16) * 0.25; c.tr.push_back(row); }
        if (!eligible(c)) { R.skipped++; return; }
        room = c.tr.back()[0] - c.t0 - horizon(c.f, c.par);
    }
    bool part = room < 0 || r.chance(8);     // the data do not cover the interval: the bounds must still be bounds
    if (part && c.sem != SPACE) { R.skipped++; return; }
    if (!part && !exact_times(c)) room = std::max(0., room - 1e-6);      // not to the very end, whose rounding may differ
    double t1 = c.t0 + (part ? r.range(0, 24) : r.range(0, (int)(room * 4))) * 0.25;
    STLRom::STLDriver d;
    if (!d.parse_string(case_text(c))) { R.fail("formula-rejected", describe(c)); return; }
    STLRom::STLMonitor m = d.get_monitor("phi");
    m.set_interpol(int_name(c.linear));
    m.set_semantics(sem_name(c.sem));
    for (auto &row : c.tr) m.add_sample(row);
    double v;
    bool viatime = r.chance(50);
    if (viatime) { m.set_eval_time(c.t0, t1); v = m.eval_rob(); }
    else v = m.eval_rob(c.t0, t1);
    Signal z = m.get_signal();
    R.evals++;
    R3 o{v, m.get_lower_rob(), m.get_upper_rob()};
    if (part && t1 > c.t0 + room) {
        R.count("partial data");
        std::string bad = judge_partial(c, o);
        if (!bad.empty()) R.fail(bad, describe(c) + "\nevaluated over [" + dnum(c.t0) + "," + dnum(t1) + "]: " + str(o));
        return;
    }
    R.count(sem_name(c.sem));
    R.count(viatime ? "set_eval_time" : "eval_rob(t0,t1)");
    std::string full = describe(c) + "\nevaluated over [" + dnum(c.t0) + "," + dnum(t1) + "]: " + dnum(v) + "\nsignal " + show(z);
    if (fdepth(c.f) > 0 && t1 > c.t0) R.nontrivial(hash_str(full));
    if (fdepth(c.f) > 1 && full.size() < 600) R.sample(full);
    if (z.empty()) { R.fail("empty-signal", full); return; }
    if (z.beginTime > c.t0 || z.endTime < t1) { R.fail("signal-does-not-cover-the-interval", full); return; }
    for (size_t i = 1; i < z.size(); i++) if (!(z[i].time >= z[i - 1].time)) { R.fail("sample-times-decrease", full); return; }
    if (!(std::fabs(at(z, c.t0) - v) <= tol(v))) { R.fail("value-at-start-is-not-the-robustness", full); return; }
    if (std::fabs(o.l - v) > tol(v) || std::fabs(o.u - v) > tol(v)) { R.fail("bounds-do-not-close", full + "\nbounds " + str(o)); return; }
    Ctx x = ctx(c);
    for (double t : probes(r, z, {}, c.t0, t1, c.sem == SPACE ? 10 : 4)) {
        double w = at(z, t);
        R.count("points compared");
        if (c.sem == SPACE) {
            Level L = [&](double th) { return sat(c.f, th, true, x, c.t0, t1); };
            if (!agrees(L, w, t)) { R.fail("signal-value-differs", full + "\nat " + dnum(t) + ": " + dnum(w) + ", expected " + dnum(expect(L, t))); return; }
        } else {
            // decided only where neither rounding of the crossing nor of t matters
            std::vector<const Form *> ats; atoms_of(c.f, ats);
            bool dec = ats.size() <= 4;
            double u0 = 0;
            for (unsigned msk = 0; dec && msk < (1u << ats.size()); msk++) {
                std::map<const Form *, double> tb;
                for (size_t i = 0; i < ats.size(); i++) tb[ats[i]] = (msk >> i & 1) ? 1e-9 : -1e-9;
                Ctx y = x; y.atb = &tb;
                if (msk == 0) u0 = value(c.f, true, y, t, c.t0, t1);
                Set lo = sat(c.f, u0 - 1e-5, true, y, c.t0, t1), hi = sat(c.f, u0 + 1e-5, true, y, c.t0, t1);
                for (double dt : {0., -1e-7, 1e-7}) if (!smem(lo, t + dt) || smem(hi, t + dt)) dec = false;
            }
            if (!dec) { R.count("undecided points"); continue; }
            if (std::fabs(u0 - w) > 1e-4) { R.fail("time-signal-value-differs", full + "\nat " + dnum(t) + ": " + dnum(w) + ", expected " + dnum(u0)); return; }
        }
    }
}
