// C19: scenarios for the Python binding. Each case performs a sequence of calls on the C++ objects and records the
// calls with their results (or exceptions), one JSON line per case; tools/pyrun.py performs the same calls in Python.
#include "chaos.hpp"
using namespace mon;
using namespace STLRom;
namespace {
std::string J(double v) { if (v == 0 && std::signbit(v)) return "-0.0"; if (std::isnan(v)) return "NaN"; if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity"; char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
std::string J(bool b) { return b ? "true" : "false"; }
std::string J(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
std::string J(const char *s) { return J(std::string(s)); }
std::string J(const std::vector<double> &v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + J(v[i]); return o + "]"; }
std::string J(const trace_data &v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + J(v[i]); return o + "]"; }
std::string J(const Signal &s) {
    std::string o = "[[" + J(s.beginTime) + "," + J(s.endTime) + "]";
    for (auto &q : s) o += ",[" + J(q.time) + "," + J(q.value) + "," + J(q.derivative) + "]";
    return o + "]";
}
struct Shown {      // what is printed on standard output
    std::ostringstream o;
    std::streambuf *old;
    Shown() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Shown() { std::cout.rdbuf(old); }
    std::string text() { return o.str(); }
};
struct Rec {
    std::string out = "[";
    long n = 0;
    // perform f, record op with its result
    void op(const std::string &args, const std::function<std::string()> &f) {
        std::string res;
        try { res = f(); }
        catch (const std::invalid_argument &) { res = "{\"exc\":\"ValueError\"}"; }
        catch (const std::out_of_range &) { res = "{\"exc\":\"IndexError\"}"; }
        catch (const std::exception &) { res = "{\"exc\":\"RuntimeError\"}"; }
        out += std::string(n ? ",\n " : "") + "[[" + args + "]," + (res.empty() ? "null" : res) + "]";
        n++;
    }
};
}
MODULE(py_scenarios) {
    odd_names(r);
    Names nm;
    Rec e;
    Chaos tx(R, Rng(r.below(1 << 30)), false, false);
    std::map<std::string, std::unique_ptr<STLDriver>> D;
    std::map<std::string, std::unique_ptr<STLMonitor>> M;
    std::map<std::string, std::unique_ptr<Signal>> S;
    int id = 0;
    GenOpt g;
    auto newid = [&](const char *k) { return k + std::to_string(id++); };
    auto pick = [&](auto &m) -> std::string { auto it = m.begin(); std::advance(it, r.below((int)m.size())); return it->first; };
    static const char *sems[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME", "BOOLEAN", ""};
    static const char *ints[] = {"LINEAR", "PREVIOUS", "cubic"};
    auto val = [&] { return r.chance(8) ? wildv(r) : r.chance(60) ? r.range(-32, 32) * 0.25 : (r.unit() - 0.5) * 20; };
    // times and intervals: on the grid, or numbers that only a double holds
    auto tm = [&](int a, int b) { double v = r.range(a, b) * 0.25; return r.chance(25) ? v + r.unit() * (r.chance(20) ? 1e-7 : 0.25) : r.chance(3) ? v * 1234567.8901234567 : v; };
    auto row = [&](double t) { std::vector<double> q{t}; int n = r.chance(5) ? r.range(0, 3) : 2; for (int i = 0; i < n; i++) q.push_back(val()); return q; };
    e.op("\"reset\"", [&] { Signal::set_semantics("SPACE"); Signal::set_interpol("LINEAR"); Signal::set_BigM(10000.); return std::string(); });
    auto start = [&] {
        std::string k = newid("d");
        auto par = gen_params(r, g);
        std::string t = "signal " + nm.sig[0] + ", " + nm.sig[1] + "\nparam " + nm.par[0] + "=" + num(par[0]) + ", " + nm.par[1] + "=" + num(par[1]) + ", " + nm.par[2] + "=" + num(par[2]) + "\nphi := " + form_text(gen_form(r, g, par, 3), Names()) + "\n";
        e.op(std::string("\"D\",") + J(k) + "," + std::to_string(r.below(3)), [&] { D[k].reset(new STLDriver); return std::string(); });
        e.op("\"parse\"," + J(k) + "," + J(t), [&] { return J(D[k]->parse_string(t)); });
        double at = r.range(-2, 4) * 0.25;
        for (int i = r.range(0, 10); i > 0; i--) { auto q = row(at); e.op("\"add\"," + J(k) + "," + J(q), [&] { D[k]->add_sample(q); return std::string(); }); at += tm(1, 6); }
    };
    start();
    auto sigstart = [&] {
        std::string k = newid("s");
        e.op("\"S\"," + J(k), [&] { S[k].reset(new Signal); return std::string(); });
        double at = r.range(-2, 4) * 0.25;
        bool der = r.chance(30);
        for (int i = r.range(1, 7); i > 0; i--) {
            double v = val(), dd = r.range(-4, 4) * 0.5;
            if (der) e.op("\"app\"," + J(k) + "," + J(at) + "," + J(v) + "," + J(dd), [&] { S[k]->appendSample(at, v, dd); return std::string(); });
            else e.op("\"app\"," + J(k) + "," + J(at) + "," + J(v), [&] { S[k]->appendSample(at, v); return std::string(); });
            at += r.range(r.chance(10) ? 0 : 1, 6) * 0.25;
        }
    };
    int steps = r.range(15, 50);
    for (int q = 0; q < steps; q++) {
        switch (r.below(28)) {
        case 0: if (D.size() < 3) start(); break;
        case 1: case 2: {
            std::string k = pick(D), t = tx.text();
            for (auto &ch : t) if ((unsigned char)ch > 126 || ch == 0) ch = '?';
            bool file = r.chance(25);
            e.op((file ? "\"parsefile\"," : "\"parse\",") + J(k) + "," + J(t), [&] { return J(D[k]->parse_string(t)); });
            e.op("\"names\"," + J(k), [&] { return J(D[k]->get_signals_names()); });
            break;
        }
        case 3: {
            std::string k = pick(D);
            double at = D[k]->data.empty() || D[k]->data.back().empty() ? 0 : D[k]->data.back()[0] + (r.chance(85) ? 0.5 : -0.5);
            for (int i = r.range(1, 4); i > 0; i--) { auto w = row(at); e.op("\"add\"," + J(k) + "," + J(w), [&] { D[k]->add_sample(w); return std::string(); }); at += r.range(1, 6) * 0.25; }
            break;
        }
        case 4: case 5: case 6: {
            std::string k = pick(D), f = "phi";
            if (r.chance(60) && !D[k]->formula_map.empty()) { auto it = D[k]->formula_map.begin(); std::advance(it, r.below((int)D[k]->formula_map.size())); f = it->first; }
            else if (r.chance(20)) f = "nosuch";
            double t0 = r.chance(3) ? NAN : tm(-2, 24);
            int style = r.below(4);
            if (style == 3) f = "phi";
            if (style >= 2) t0 = 0;
            e.op("\"rob\"," + J(k) + "," + J(f) + "," + J(t0) + "," + std::to_string(style), [&] { return J(D[k]->get_online_rob(f, t0)); });
            R.count("evaluations by the driver");
            break;
        }
        case 7: { std::string k = pick(D), p = r.chance(90) ? nm.par[r.below(3)] : "none"; double v = p == nm.par[2] ? tm(0, 12) : val(); e.op("\"param\"," + J(k) + "," + J(p) + "," + J(v), [&] { D[k]->set_param(p, v); return std::string(); });
                  e.op("\"getparam\"," + J(k) + "," + J(p), [&] { return J(D[k]->get_param(p)); }); break; }
        case 8: { std::string k = pick(D), s = sems[r.below(5)]; e.op("\"sem\"," + J(k) + "," + J(s), [&] { D[k]->set_semantics(s); return std::string(); });
                  e.op("\"getsem\"," + J(k), [&] { return J(D[k]->get_semantics()); }); break; }
        case 9: { std::string k = pick(D), s = ints[r.below(3)]; e.op("\"interp\"," + J(k) + "," + J(s), [&] { D[k]->set_interpol(s); return std::string(); });
                  e.op("\"getinterp\"," + J(k), [&] { return J(D[k]->get_interpol()); }); break; }
        case 10: { std::string k = pick(D), n = newid("d"); if (D.size() > 4) break; e.op("\"copy\"," + J(n) + "," + J(k) + "," + std::to_string(r.below(3)), [&] { D[n].reset(new STLDriver(*D[k])); return std::string(); }); R.count("copies"); break; }
        case 11: { std::string k = pick(D); if (D.size() < 2) break; e.op("\"del\"," + J(k), [&] { D.erase(k); return std::string(); }); R.count("deletions"); break; }
        case 12: case 13: { std::string k = pick(D), n = newid("m"), f = "phi"; if (r.chance(50) && !D[k]->formula_map.empty()) f = D[k]->formula_map.begin()->first; if (r.chance(5)) f = "nosuch";
                  e.op("\"mon\"," + J(n) + "," + J(k) + "," + J(f), [&] { M[n].reset(new STLMonitor(D[k]->get_monitor(f))); return std::string(); }); break; }
        case 14: case 15: case 16: {
            if (M.empty()) break;
            std::string k = pick(M);
            switch (r.below(11)) {
            case 0: { double at = M[k]->data.empty() || M[k]->data.back().empty() ? 0 : M[k]->data.back()[0] + (r.chance(90) ? 0.5 : 0); for (int i = r.range(1, 4); i > 0; i--) { auto w = row(at); e.op("\"add\"," + J(k) + "," + J(w), [&] { M[k]->add_sample(w); return std::string(); }); at += r.range(1, 6) * 0.25; } break; }
            case 1: case 2: case 3: {
                double a = tm(0, 20), b = a + r.range(0, 8) * 0.25;
                int n = r.below(3);
                e.op("\"eval\"," + J(k) + "," + (n == 0 ? "[]" : n == 1 ? J(std::vector<double>{a}) : J(std::vector<double>{a, b})), [&] { return J(n == 0 ? M[k]->eval_rob() : n == 1 ? M[k]->eval_rob(a) : M[k]->eval_rob(a, b)); });
                e.op("\"lowup\"," + J(k), [&] { return J(std::vector<double>{M[k]->rob, M[k]->lower_rob, M[k]->upper_rob, M[k]->get_lower_rob(), M[k]->get_upper_rob()}); });
                R.count("evaluations by a monitor");
                break;
            }
            case 4: { double a = tm(0, 20), b = a + tm(0, 8); bool attr = r.chance(30); e.op(std::string(attr ? "\"settimes\"," : "\"setev\",") + J(k) + "," + J(a) + "," + J(b), [&] { M[k]->set_eval_time(a, b); return std::string(); });
                      e.op("\"times\"," + J(k), [&] { return J(std::vector<double>{M[k]->start_time, M[k]->end_time}); }); break; }
            case 5: { std::string p = r.chance(90) ? nm.par[0] : "none"; double v = val(); e.op("\"param\"," + J(k) + "," + J(p) + "," + J(v), [&] { M[k]->set_param(p, v); return std::string(); });
                      e.op("\"getparam\"," + J(k) + "," + J(p), [&] { return J(M[k]->get_param(p)); }); break; }
            case 6: { std::string n = newid("s"); e.op("\"sig\"," + J(n) + "," + J(k), [&] { S[n].reset(new Signal(M[k]->get_signal())); return J(*S[n]); }); R.count("signals taken from a monitor"); break; }
            case 7: { std::string s = sems[r.below(5)]; e.op("\"sem\"," + J(k) + "," + J(s), [&] { M[k]->set_semantics(s); return std::string(); }); e.op("\"getsem\"," + J(k), [&] { return J(M[k]->get_semantics()); }); break; }
            case 8: { std::string s = ints[r.below(3)]; e.op("\"interp\"," + J(k) + "," + J(s), [&] { M[k]->set_interpol(s); return std::string(); }); e.op("\"getinterp\"," + J(k), [&] { return J(M[k]->get_interpol()); }); break; }
            case 9: { std::string n = newid("m"); if (M.size() > 5) break; e.op("\"copy\"," + J(n) + "," + J(k) + "," + std::to_string(r.below(3)), [&] { M[n].reset(new STLMonitor(*M[k])); return std::string(); }); R.count("copies"); break; }
            case 10: if (M.size() > 1) { e.op("\"del\"," + J(k), [&] { M.erase(k); return std::string(); }); R.count("deletions"); } break;
            }
            break;
        }
        case 17: { if (M.empty()) break; std::string k = pick(M); e.op("\"repr\"," + J(k), [&] { std::ostringstream o; o << *M[k]; return J(o.str()); }); e.op("\"data\"," + J(k), [&] { return J(M[k]->data); }); break; }
        case 18: { std::string k = pick(D); e.op("\"data\"," + J(k), [&] { return J(D[k]->data); });
                   if (r.chance(40)) { trace_data t; double at = r.range(-4, 4) * 0.25; for (int i = r.range(0, 6); i > 0; i--) { std::vector<double> w{at, val(), val()}; t.push_back(w); at += r.range(1, 4) * 0.25; } e.op("\"setdata\"," + J(k) + "," + J(t), [&] { D[k]->data = t; return std::string(); }); } break; }
        case 19: if (S.size() < 5) sigstart(); break;
        case 20: case 21: {
            if (S.size() < 2) { sigstart(); sigstart(); }
            std::string a = pick(S), b = pick(S), n = r.chance(15) ? a : newid("s");   // the target may be an operand
            static const char *ops[] = {"not", "and", "or", "boolean", "left_time_rob", "right_time_rob"};
            int o = r.below(6);
            e.op("\"sop\"," + J(n) + "," + J(ops[o]) + "," + J(a) + "," + J(b), [&] {
                if (n != a) S[n].reset(new Signal);
                Signal &z = *S[n], &x = *S[a], &y = *S[b];
                switch (o) { case 0: z.compute_not(x); break; case 1: z.compute_and(x, y); break; case 2: z.compute_or(x, y); break; case 3: z.compute_boolean(x); break; case 4: z.compute_left_time_rob(x); break; case 5: z.compute_right_time_rob(x); break; }
                return J(z);
            });
            R.count("signal operators");
            if (S.size() > 5) { std::string k = pick(S); e.op("\"del\"," + J(k), [&] { S.erase(k); return std::string(); }); }
            break;
        }
        case 22: {
            if (S.empty()) break;
            std::string k = pick(S), n = newid("s");
            e.op("\"samples\"," + J(k), [&] { return J(*S[k]); });
            e.op("\"copy\"," + J(n) + "," + J(k) + "," + std::to_string(r.below(3)), [&] { S[n].reset(new Signal(*S[k])); return std::string(); });
            double v = r.range(0, 40) * 0.25;
            if (r.chance(40)) e.op("\"setend\"," + J(n) + "," + J(v), [&] { if (v >= (S[n]->empty() ? 0 : S[n]->back().time)) S[n]->endTime = v; return J(*S[n]); });
            else e.op("\"app\"," + J(n) + "," + J(v) + "," + J(v), [&] { S[n]->appendSample(v, v); return std::string(); });
            e.op("\"samples\"," + J(k), [&] { return J(*S[k]); });
            break;
        }
        case 24: {   // what is displayed
            std::string k = pick(D);
            e.op("\"disp\"," + J(k), [&] { std::ostringstream o; D[k]->print(o); return J(o.str()); });
            if (!M.empty()) { std::string m = pick(M); e.op("\"dispf\"," + J(m), [&] { Shown o; M[m]->display_formula(); return J(o.text()); }); }
            if (r.chance(50)) e.op("\"pmon\"," + J(k), [&] {
                Shown quiet;
                std::ostringstream o;
                STLMonitor m = D[k]->get_monitor("phi");
                o << "Monitor lower rob:" << m.lower_rob << std::endl;
                if (m.formula) m.formula->print(o);
                return J(o.str() + "\n");
            });
            R.count("displays");
            break;
        }
        case 25: {
            double t = val(), v = val(), d = val();
            e.op("\"ppoint\"," + J(t) + "," + J(v), [&] { Shown o; Point(t, v).print_point(); return J(o.text()); });
            e.op("\"psample\"," + J(t) + "," + J(v) + "," + J(d), [&] { Shown o; Sample(t, v, d).print_sample(); return J(o.text()); });
            int a = r.range(0, 12), b = r.range(0, 3);
            e.op("\"rand\"," + std::to_string(a) + "," + std::to_string(b), [&] { trace_data t = rand_trace_data(a, b); std::vector<double> o{(double)t.size()}; for (auto &w : t) { o.push_back((double)w.size()); o.push_back(w[0]); } return J(o); });
            break;
        }
        case 26: {   // a monitor of its own, without formula
            if (M.size() > 5 || r.chance(60)) break;
            std::string n = newid("m");
            e.op("\"mon0\"," + J(n), [&] { M[n].reset(new STLMonitor); return std::string(); });
            e.op("\"repr\"," + J(n), [&] { std::ostringstream o; o << *M[n]; return J(o.str()); });
            break;
        }
        case 27: {   // other Python types: converted, or a TypeError that changes nothing
            std::string k = pick(D);
            double at = D[k]->data.empty() || D[k]->data.back().empty() ? 0 : std::ceil(D[k]->data.back()[0] + 0.5);
            if (!(std::fabs(at) < 1e9)) break;
            std::vector<double> w{at, (double)r.range(-9, 9), (double)r.range(-9, 9)};
            e.op("\"addt\"," + J(k) + "," + J(w) + "," + std::to_string(r.below(5)), [&] { D[k]->add_sample(w); return std::string(); });
            std::string m = M.empty() ? "" : pick(M), s = S.empty() ? "" : pick(S);
            e.op("\"wrong\"," + J(k) + "," + J(m) + "," + J(s) + "," + std::to_string(r.below(1000)), [&] { return J("TypeError"); });
            e.op("\"data\"," + J(k), [&] { return J(D[k]->data); });
            if (!s.empty()) e.op("\"samples\"," + J(s), [&] { return J(*S[s]); });
            if (!m.empty()) e.op("\"lowup\"," + J(m), [&] { return J(std::vector<double>{M[m]->rob, M[m]->lower_rob, M[m]->upper_rob, M[m]->get_lower_rob(), M[m]->get_upper_rob()}); });
            R.count("calls with other types");
            break;
        }
        case 23: {
            double t = val(), v = val(), d = val(), t2 = val(), v2 = val(), d2 = val();
            Sample a(t, v, d), b(t2, v2, d2);
            e.op("\"sample\"," + J(std::vector<double>{t, v, d, t2, v2, d2}), [&] { return J(std::vector<double>{a.valueAt(t2), a.timeIntersect(b), a.time, a.value, a.derivative}); });
            if (r.chance(50)) { double m = r.range(1, 50) * 100 + (r.chance(30) ? r.unit() : 0); e.op("\"bigm\"," + J(m), [&] { Signal::set_BigM(m); return J(Signal::get_BigM()); }); }
            else { std::string s = sems[r.below(4)], i = ints[r.below(3)];
                   e.op("\"ssem\"," + J(s), [&] { Signal::set_semantics(s); return std::string(); }); e.op("\"sgetsem\"", [&] { return J(Signal::get_semantics()); });
                   e.op("\"sint\"," + J(i), [&] { Signal::set_interpol(i); return std::string(); }); e.op("\"sgetint\"", [&] { return J(Signal::get_interpol()); }); }
            break;
        }
        }
    }
    R.evals += e.n;
    R.nontrivial(hash_str(e.out));
    Signal::set_BigM(10000.);
    FILE *f = fopen((std::string(getenv("MON_DIR") ? getenv("MON_DIR") : "/tmp") + "/scen.jsonl").c_str(), "a");
    std::string line = "[" + std::to_string(R.index) + "," + e.out + "]]";
    for (auto &c : line) if (c == '\n') c = ' ';
    fprintf(f, "%s\n", line.c_str());
    fclose(f);
}
