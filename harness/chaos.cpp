#include "chaos.hpp"
#include <limits>
using namespace STLRom;
namespace mon {
std::string mutate_text(Rng &r, std::string s) {
    int n = r.range(1, 4);
    static const char *bits[] = {"(", ")", "[", "]", ":=", "and", "not", "ev_", "until_[0,1]", "x[t]", "phi", ",", "param", "signal", "test", "{", "}", "\"", "#", "-", "1e9", "[0,1]", "=", "abs(", "\n", "true", "999999999999999999999", ".", "\xff", "<>", "[]", "p", "t"};
    for (int k = 0; k < n && !s.empty(); k++) {
        int p = r.below((int)s.size()), q = r.below((int)s.size());
        switch (r.below(7)) {
        case 0: s.erase(p, r.range(1, 6)); break;
        case 1: s.insert(p, bits[r.below((int)(sizeof bits / sizeof *bits))]); break;
        case 2: s[p] = (char)r.below(256); break;
        case 3: s.insert(p, s.substr(q, r.range(1, 12))); break;
        case 4: std::swap(s[p], s[q]); break;
        case 5: s.resize(p); break;
        case 6: s.insert(p, std::string(" ") + bits[r.below((int)(sizeof bits / sizeof *bits))] + " "); break;
        }
    }
    return s;
}
static const double INF = std::numeric_limits<double>::infinity();
double Chaos::num_() {
    if (hostile && r.chance(12)) {
        static const double w[] = {NAN, INF, -INF, 1e308, -1e308, 5e-324, 1e9, -1e9, 2147483648.0, -2147483649.0, 1e19, -0.0};
        return w[r.below(12)];
    }
    return r.chance(70) ? r.range(-32, 32) * 0.25 : (r.unit() - 0.5) * 20;
}
double Chaos::time_() {
    if (hostile && r.chance(12)) return num_();
    return r.chance(10) ? -r.range(1, 20) * 0.25 : r.range(0, 60) * 0.25;
}
std::string Chaos::text() {
    GenOpt g;
    g.maxb = r.chance(80) ? 3 : 10;
    std::vector<double> par = gen_params(r, g);
    F f = gen_form(r, g, par, r.range(0, 3));
    std::string ft = form_text(f, Names()), s, n = std::to_string(serial++);
    switch (r.below(8)) {
    case 0: s = "signal x, y\nparam p=" + num(par[0]) + ", q=" + num(par[1]) + ", r=" + num(par[2]) + "\nphi := " + ft + "\n"; break;
    case 1: s = "psi" + n + " := " + ft; break;
    case 2: s = "psi" + n + " := phi " + (r.chance(50) ? "and" : "or") + " (not phi)\nchi" + n + " := alw_[0, 2] (psi" + n + ")\n"; break;
    case 3: s = "test tr" + n + " : \"a=1\"" + (r.chance(50) ? ", 10, true" : "") + "\n{\n T" + n + (r.chance(50) ? " (p=1, q=-2)" : "") + "\n { " + ft + ",\n \"yes\", \"no\", " + (r.chance(50) ? "true" : "false") + " }\n" + (r.chance(40) ? " T0 (p=2)\n" : "") + "}\n"; break;
    case 4: s = "param p=" + num(par[0]) + ", n" + n + "=2.5\npsi" + n + " := x[t] > p + n" + n; break;
    case 5: s = "phi := " + ft + "\nphi := not (" + ft + ")\n"; break;
    case 6: s = "phi := " + ft + " # a comment\n"; break;
    case 7: {
        static const char *e[] = {"", " ", "\n", "#", "# only a comment\n", "signal x, y", "signal x, x\n", "param p", "param p=", "test", "phi", "phi := phi", "phi := ev_[5, 1] (x[t] > 0)", "phi := ev_[p, q] (x[t] > 0)",
                                  "phi := ev_[0, 99999999999] (x[t] > 0)", "phi := (x[t] > 0) until (y[t] > 0)", "phi := ev (x[t] > 0)", "phi := alw (x[t] > 0)", "phi := x[t] * y[t] > 0", "phi := x[t+1] > 0", "phi := x[t] / 0 > 1", "phi := true", "phi := ev_[0, -1] (x[t] > 0)", "phi := x[t-2] > 0\n", "signal a\nphi := a[t] > 0\n", "signal x, y, z, w\nphi := w[t] > 0\n"};
        s = e[r.below((int)(sizeof e / sizeof *e))];
    }
    }
    int k = r.below(100);
    if (k < (hostile ? 25 : 18)) s = mutate_text(r, s);
    else if (hostile && k < 30) {
        s = "";
        int n = r.range(0, 80);
        for (int i = 0; i < n; i++) s += (char)r.below(256);
    } else if (hostile && k < 33) {
        s = "phi := ";
        int d = r.range(1, 150);
        static const char *pre[] = {"(", "not ", "ev_[0, 1] ", "(not "};
        int w = r.below(4);
        for (int i = 0; i < d; i++) s += pre[w];
        s += "x[t] > 0";
        if (r.chance(80)) for (int i = 0; i < d && (w == 0 || w == 3); i++) s += ")";
    }
    return s;
}
void Chaos::step() {
    auto d = [&]() -> STLDriver & { if (D.empty()) D.emplace_back(new STLDriver); return *D[r.below((int)D.size())]; };
    auto sig = [&]() -> Signal & {
        if (S.empty() || (S.size() < 5 && r.chance(30))) {
            if (hostile && r.chance(15)) S.emplace_back(new Signal);
            else if (r.chance(20)) S.emplace_back(new Signal(r.range(-20, 20) * 0.25, num_(), r.range(hostile ? 0 : 1, 6)));
            else {
                int n = r.range(1, 8);
                std::vector<double> t, v;
                double at = r.range(-4, 8) * 0.25;
                for (int i = 0; i < n; i++) { t.push_back(at); v.push_back(num_()); at += r.range(hostile ? 0 : 1, 6) * 0.25; }
                S.emplace_back(new Signal(t.data(), v.data(), n));
            }
        }
        return *S[r.below((int)S.size())];
    };
    static const char *sems[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME", "BOOLEAN", "nonsense"};
    static const char *ints[] = {"LINEAR", "PREVIOUS", "CUBIC"};
    auto fname = [&](STLDriver &x) -> std::string {
        if (x.formula_map.empty() || r.chance(8)) return r.chance(50) ? "phi" : "nosuchformula";
        auto it = x.formula_map.begin();
        std::advance(it, r.below((int)x.formula_map.size()));
        return it->first;
    };
    auto row = [&](double t) { std::vector<double> q{t}; int n = hostile && r.chance(8) ? r.range(0, 5) : 2; for (int i = 0; i < n; i++) q.push_back(num_()); return q; };
    calls++;
    try {
        switch (r.below(hostile ? 37 : 35)) {
        case 0: case 1: case 2: case 3: {
            std::string s = text();
            bool file = files && r.chance(15), ok;
            STLDriver &x = d();
            note("parse: " + s);
            if (file) { std::string fn = std::string(getenv("MON_DIR") ? getenv("MON_DIR") : "/tmp") + "/chaos.stl"; { std::ofstream o(fn, std::ios::binary); o << s; } ok = x.parse_file(fn); unlink(fn.c_str()); }
            else ok = x.parse_string(s);
            if (!ok) refused++;
            break;
        }
        case 4: {   // a proper start
            D.emplace_back(new STLDriver);
            GenOpt g;
            std::vector<double> par = gen_params(r, g);
            std::string s = "signal x, y\nparam p=" + num(par[0]) + ", q=" + num(par[1]) + ", r=" + num(par[2]) + "\nphi := " + form_text(gen_form(r, g, par, 3), Names()) + "\n";
            note("new driver: " + s);
            D.back()->parse_string(s);
            double at = r.range(-4, 8) * 0.25;
            for (int i = r.range(0, 14); i > 0; i--) { D.back()->add_sample(row(at)); at += r.range(1, 6) * 0.25; }
            if (D.size() > 4) D.erase(D.begin());
            break;
        }
        case 5: case 6: {
            STLDriver &x = d();
            double at = x.data.empty() || x.data.back().empty() ? 0 : x.data.back()[0] + (r.chance(85) ? 0.25 : -1);
            if (hostile && r.chance(10)) at = num_();
            bool many = r.below(400) == 0;
            for (int i = many ? r.range(1000, 6000) : r.range(1, 6); i > 0; i--) { x.add_sample(row(at)); at += many ? 0.25 / 256 : r.range(0, 6) * 0.25; }
            note("add_sample");
            break;
        }
        case 7: case 8: case 9: case 10: {
            STLDriver &x = d();
            std::string n = fname(x);
            double t = time_();
            bool two = r.chance(80);
            note("get_online_rob " + n + " " + dnum(t));
            auto v = two ? x.get_online_rob(n, t) : x.get_online_rob(n);
            break;
        }
        case 11: { auto &x = d(); double v = num_(); const char *p = r.chance(50) ? "p" : r.chance(50) ? "r" : "none"; note(std::string("set_param ") + p + " " + dnum(v)); x.set_param(p, v); break; }
        case 12: { auto &x = d(); note("get_param"); x.get_param(r.chance(70) ? "p" : "none"); break; }
        case 13: { auto &x = d(); const char *s = sems[r.below(5)]; note(s); x.set_semantics(s); break; }
        case 14: { auto &x = d(); const char *s = ints[r.below(3)]; note(s); x.set_interpol(s); break; }
        case 15: { STLDriver &x = d(); note("copy"); D.emplace_back(new STLDriver(x)); if (D.size() > 4) D.erase(D.begin() + r.below(4)); break; }
        case 16: { STLDriver &x = d(); note("move"); std::unique_ptr<STLDriver> y(new STLDriver(std::move(x))); D.push_back(std::move(y)); if (D.size() > 4) D.erase(D.begin() + r.below(4)); break; }
        case 17: { STLDriver &x = d(), &y = d(); note("assign"); if (r.chance(70)) x = y; else if (&x != &y) x = std::move(y); break; }
        case 18: if (r.chance(40)) { note("clear"); d().clear(); } else { note("destroy"); if (!D.empty()) D.erase(D.begin() + r.below((int)D.size())); } break;
        case 19: case 20: { STLDriver &x = d(); std::string n = fname(x); note("get_monitor " + n); M.emplace_back(new STLMonitor(x.get_monitor(n))); if (M.size() > 4) M.erase(M.begin()); break; }
        case 21: case 22: case 23: case 24: {
            if (M.empty()) M.emplace_back(new STLMonitor);
            STLMonitor &m = *M[r.below((int)M.size())];
            int k = r.below(13);
            note("monitor op " + std::to_string(k));
            switch (k) {
            case 0: case 1: case 2: { double at = m.data.empty() || m.data.back().empty() ? 0 : m.data.back()[0] + 0.25; for (int i = r.range(1, 6); i > 0; i--) { m.add_sample(row(at)); at += r.range(0, 6) * 0.25; } break; }
            case 3: case 4: { double t = time_(); note(dnum(t)); m.eval_rob(t); break; }
            case 5: m.eval_rob(); break;
            case 6: { double a = time_(), b = time_(); note(dnum(a) + " " + dnum(b)); m.eval_rob(a, b); m.get_signal(); break; }
            case 7: { double a = time_(), b = time_(); m.set_eval_time(a, b); m.eval_rob(); Signal s = m.get_signal(); break; }
            case 8: m.set_param(r.chance(80) ? "p" : "none", num_()); break;
            case 9: m.set_semantics(sems[r.below(5)]); break;
            case 10: m.set_interpol(ints[r.below(3)]); break;
            case 11: m.reset_signal_data(); break;
            case 12: { std::ostringstream o; o << m; m.get_signal_names(); m.get_rob(); m.display_formula(); m.display_signal_names(); break; }
            }
            break;
        }
        case 25: {
            if (M.empty()) break;
            STLMonitor &m = *M[r.below((int)M.size())], &n = *M[r.below((int)M.size())];
            note("monitor copy/move/assign");
            switch (r.below(4)) {
            case 0: { std::unique_ptr<STLMonitor> c(new STLMonitor(m)); M.push_back(std::move(c)); break; }
            case 1: { std::unique_ptr<STLMonitor> c(new STLMonitor(std::move(m))); M.push_back(std::move(c)); break; }
            case 2: m = n; break;
            case 3: if (&m != &n) m = std::move(n); break;
            }
            if (M.size() > 4) M.erase(M.begin() + r.below(4));
            break;
        }
        case 26: { STLDriver &x = d(); note("run_tests"); x.get_next_formula(); x.get_next_stl_test(); x.get_next_trace_test_env(); if (r.chance(20)) x.pop_next_trace_test(); else x.run_tests(); break; }
        case 27: { STLDriver &x = d(); note("print"); std::ostringstream o; x.print(o); x.print_trace(o); x.get_signals_names(); for (auto &f : x.formula_map) if (f.second) o << *f.second; break; }
        case 28: if (files) {
            STLDriver &x = d();
            std::string fn = std::string(getenv("MON_DIR") ? getenv("MON_DIR") : "/tmp") + "/chaos.txt";
            note("files");
            switch (r.below(5)) {
            case 0: x.dump_trace_file(fn); x.read_trace_file(fn); break;
            case 1: x.read_trace_file(fn + ".none"); break;
            case 2: { std::ofstream o(fn, std::ios::binary); for (int i = r.range(0, 60); i > 0; i--) o << "0123456789.-+eE \n\t\rxnaif,"[r.below(25)]; o.close(); x.read_trace_file(fn); break; }
            case 3: x.dump_test_log_file(fn); break;
            case 4: x.dump(); break;
            }
            unlink(fn.c_str());
            break;
        } break;
        case 29: case 30: case 31: case 32: {
            Signal &a = sig(), &b = sig();
            std::unique_ptr<Signal> o(new Signal);
            Signal &c = r.chance(25) ? sig() : *o;    // sometimes a signal with content, or one of the operands
            if (!hostile && (&c == &a || &c == &b)) break;
            double u = num_(), v = num_();
            int k = r.below(24);
            if (k == 16 || k == 17 || k == 20) { u = r.range(-40, 40) * 0.25; if (k == 16) v = r.range(-40, 40) * 0.25; }   // times of signals stay finite and ordered
            if (keep) { std::ostringstream s; s << "signal op " << k << " " << u << " " << v << "\na: " << a << "\nb: " << b << "\nalias " << (&c == &a) << (&c == &b) << (&a == &b); note(s.str()); }
            switch (k) {
            case 0: c.compute_not(a); break;
            case 1: c.compute_and(a, b); break;
            case 2: c.compute_or(a, b); break;
            case 3: c.compute_implies(a, b); break;
            case 4: c.compute_eventually(a); break;
            case 5: c.compute_globally(a); break;
            case 6: c.compute_timed_eventually(a, std::min(std::fabs(u), std::fabs(v)), std::max(std::fabs(u), std::fabs(v))); break;
            case 7: c.compute_timed_globally(a, std::min(std::fabs(u), std::fabs(v)), std::max(std::fabs(u), std::fabs(v))); break;
            case 8: c.compute_until(a, b); break;
            case 9: c.compute_timed_until(a, b, std::min(std::fabs(u), std::fabs(v)), std::max(std::fabs(u), std::fabs(v))); break;
            case 10: c.compute_bounded_eventually(a, std::fabs(u)); break;
            case 11: c.compute_bounded_globally(a, std::fabs(u)); break;
            case 12: c.compute_boolean(a); break;
            case 13: c.compute_left_time_rob(a); break;
            case 14: c.compute_right_time_rob(a); break;
            case 15: a.simplify(); break;
            case 16: a.resize(std::min(u, v), std::max(u, v), num_()); break;
            case 17: a.shift(u); break;
            case 18: a.addLastSample(); break;
            case 19: a.removeInf(); break;
            case 20: a.appendSample(a.endTime + std::fabs(u), v); break;
            case 21: if (hostile || !a.empty()) { Signal t(b); t.shift(a.endTime - b.beginTime); a.appendSignal(t); } break;
            case 22: { Signal t(a); a = b; b = std::move(t); break; }
            case 23: if (hostile) { c.compute_timed_until(a, b, u, v); c.compute_timed_eventually(a, u, v); c.compute_timed_globally(b, u, v); } break;
            }
            if (r.chance(40) && o && S.size() < 5) S.push_back(std::move(o));
            for (size_t i = 0; i < S.size(); i++) if (S[i]->size() > 200) { S.erase(S.begin() + i); break; }
            break;
        }
        case 33: {
            Signal &a = sig(), &b = sig();
            if (!hostile && (a.empty() || b.empty())) break;
            note("compute* functions");
            std::unique_ptr<Signal> o;
            switch (r.below(8)) {
            case 0: o.reset(computeNot(&a)); break;
            case 1: o.reset(computeAnd(&a, &b)); break;
            case 2: o.reset(computeOr(&a, &b)); break;
            case 3: o.reset(computeImplies(&a, &b)); break;
            case 4: o.reset(computeEventually(&a)); break;
            case 5: o.reset(computeGlobally(&a)); break;
            case 6: o.reset(computeUntil(&a, &b)); break;
            case 7: o.reset(computeTimedUntil(&a, &b, 0.5, 0.5 + r.range(0, 8) * 0.25)); break;
            }
            break;
        }
        case 34: { Signal &a = sig(); note("print signal"); std::ostringstream o; o << a; break; }
        case 35: {   // data put in place by the user
            STLDriver &x = d();
            note("data assigned");
            x.data.clear();
            double at = num_();
            for (int i = r.range(0, 8); i > 0; i--) { auto q = row(at); if (r.chance(10)) q.resize(r.below(3)); x.data.push_back(q); at += r.chance(5) ? num_() : r.range(0, 6) * 0.25; }
            break;
        }
        case 36: { double v = r.chance(60) ? 1e9 : num_(); note("BigM " + dnum(v)); Signal::set_BigM(v); break; }
        }
    } catch (const std::exception &e) { thrown++; note(std::string("  threw ") + e.what()); }
    catch (...) { foreign = true; }
}
void Chaos::run(int steps) {
    Signal::semantics = Semantics::SPACE;
    Signal::interpol = Interpol::LINEAR;
    Signal::BigM = 1e9;
    for (int i = 0; i < steps; i++) step();
    Signal::BigM = 1e9;
}
} // namespace mon
