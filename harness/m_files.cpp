// C18: trace files and dumps. C20: tests declared in a specification.
#include "evalcheck.hpp"
#include <fstream>
#include <unistd.h>
using namespace mon;
using namespace STLRom;
namespace {
std::string dir() { const char *d = getenv("MON_DIR"); return d ? d : "/tmp"; }
std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
double wild(Rng &r) {
    switch (r.below(9)) {
    case 0: return r.range(-5, 5);
    case 1: return r.range(-100, 100) * 0.1;
    case 2: return r.unit() * 1e-3;
    case 3: return (r.unit() - 0.5) * 1e9;
    case 4: return std::ldexp(r.unit() + 0.5, r.range(-900, 900));
    case 5: return 1.0 / 3 + r.range(-3, 3);
    case 6: return -std::ldexp(1, -r.range(1, 60));
    case 7: return r.unit();
    default: return 123456789.123456789 * r.range(1, 9);
    }
}
double extreme(Rng &r) {
    switch (r.below(6)) {
    case 0: return INFINITY;
    case 1: return -INFINITY;
    case 2: return NAN;
    case 3: return std::ldexp(r.unit(), -1030);
    case 4: return r.chance(50) ? 1.7976931348623157e308 : -1.7976931348623157e308;
    default: return -0.;
    }
}
bool same_rows(const trace_data &a, const trace_data &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t k = 0; k < a[i].size(); k++) if (!(a[i][k] == b[i][k] && std::signbit(a[i][k]) == std::signbit(b[i][k])) && !(std::isnan(a[i][k]) && std::isnan(b[i][k]))) return false;
    }
    return true;
}
std::string rows(const trace_data &a) {
    std::string s;
    for (auto &q : a) { s += "["; for (size_t i = 0; i < q.size(); i++) s += (i ? "," : "") + dnum(q[i]); s += "]"; }
    return s;
}
}
MODULE(trace_files) {
    std::string fn = dir() + "/trace.txt";
    int nsig = r.range(1, 3), n = r.range(0, 14);
    bool special = r.chance(6);      // infinities, NaN, denormals
    if (r.below(1500) == 0) { n = r.range(2000, 9000); R.count("thousands of rows"); }
    bool wide = r.below(300) == 0;   // long lines
    if (wide) { nsig = r.range(30, 400); R.count("long lines"); }
    trace_data tr;
    double t = r.chance(50) ? 0 : (r.unit() - 0.5) * 100;
    bool hard = r.chance(60);
    for (int i = 0; i < n; i++) {
        std::vector<double> row{t};
        for (int k = 0; k < nsig; k++) row.push_back(special && r.chance(30) ? extreme(r) : hard ? wild(r) : r.range(-40, 40) * 0.25);
        tr.push_back(row);
        t += hard ? 1e-6 + r.unit() * (r.chance(20) ? 1e6 : 1) : r.range(1, 8) * 0.25;
    }
    R.evals++;
    R.count("rows", n);
    if (r.chance(55)) {       // what dump_trace_file writes, read_trace_file reads
        STLDriver d, e;
        std::string decl = "signal x";
        for (int k = 1; k < nsig; k++) decl += ", " + (k < 3 ? std::string(1, "xyz"[k]) : "c" + std::to_string(k));
        d.parse_string(decl);
        if (r.chance(50)) { for (auto &row : tr) d.add_sample(row); }
        else d.data = tr;
        if (r.chance(30)) { std::ofstream o(fn, std::ios::binary); for (int k = r.range(1, 400); k > 0; k--) o << "7.25 8.5\n"; }     // what was there before goes
        d.dump_trace_file(fn);
        e.data = {{1, 2}, {3, 4}};            // replaced
        R.count("dump and read");
        if (!e.read_trace_file(fn)) { R.fail("trace-not-read", slurp(fn)); return; }
        if (!same_rows(e.data, tr)) { R.fail("trace-differs-after-dump-and-read", "written " + rows(tr) + "\nfile:\n" + slurp(fn) + "\nread " + rows(e.data)); return; }
        if (!same_rows(d.data, tr)) R.fail("dump-changed-data", rows(d.data));
        // the re-read trace is as good as the original
        if (n) {
            std::string f = decl + "\nphi := ev_[0, 1] (x[t] > 0.5)\n";
            STLDriver a(tr), b;
            a.parse_string(f); b.parse_string(f);
            b.read_trace_file(fn);
            auto va = a.get_online_rob("phi", tr[0][0]), vb = b.get_online_rob("phi", tr[0][0]);
            if (!same_rows({va}, {vb})) { R.fail("evaluation-differs-after-dump-and-read", "written " + rows(tr)); return; }
        }
        R.nontrivial(hash_str(rows(tr)));
        if (n && n < 5) R.sample(rows(tr));
    } else {                   // files written by hand or by other tools
        std::string s;
        bool crlf = r.chance(25), lastnl = r.chance(70);
        trace_data want;
        static const char *gaps[] = {" ", "  ", "\t", " \t ", "      "};
        for (size_t i = 0; i < tr.size(); i++) {
            if (r.chance(8)) s += r.chance(50) ? (crlf ? "\r\n" : "\n") : (crlf ? "  \t\r\n" : "  \t\n");   // blank lines
            if (r.chance(20)) s += gaps[r.below(5)];
            std::vector<double> row;
            for (size_t k = 0; k < tr[i].size(); k++) {
                if (k) s += gaps[r.below(r.chance(60) ? 1 : 5)];
                char b[64];
                double v = tr[i][k];
                switch (r.below(5)) {
                case 0: snprintf(b, sizeof b, "%.17g", v); break;
                case 1: snprintf(b, sizeof b, "%.6e", v); break;
                case 2: snprintf(b, sizeof b, "%g", v); break;
                case 3: snprintf(b, sizeof b, "%+.5E", v); break;
                default: snprintf(b, sizeof b, std::fabs(v) < 1e15 ? "%.3f" : "%.8g", v); break;
                }
                s += b;
                row.push_back(strtod(b, nullptr));
            }
            want.push_back(row);
            if (r.chance(35)) s += gaps[r.below(5)];
            if (i + 1 < tr.size() || lastnl) s += crlf ? "\r\n" : "\n";
        }
        { std::ofstream o(fn, std::ios::binary); o << s; }
        trace_data got{{9, 9, 9}};
        bool viadriver = r.chance(60), ok;
        if (viadriver) { STLDriver d; d.data = got; ok = d.read_trace_file(fn); got = d.data; }
        else { got.clear(); ok = read_trace(fn, got); }
        R.count(lastnl ? "hand-written" : "hand-written, no final newline");
        if (crlf) R.count("CRLF");
        if (!ok) { R.fail("trace-not-read", s); return; }
        if (!same_rows(got, want)) { R.fail("trace-misread", "file:\n" + s + "\nmeans " + rows(want) + "\nread " + rows(got)); return; }
        R.nontrivial(hash_str(s));
    }
    if (r.chance(10)) {
        STLDriver d;
        d.data = {{1, 2}};
        if (d.read_trace_file(dir() + "/nowhere/none")) R.fail("missing-file-read", "");
        R.count("missing file refused");
        d.dump_trace_file(dir() + "/nowhere/none");    // reports, does not throw
        if (d.dump_test_log_file(dir() + "/nowhere/none")) R.fail("log-written-nowhere", "an empty log");
        std::ofstream(fn) << "what was there before\n" << std::string(r.below(300), '#');
        if (!d.dump_test_log_file(fn) || slurp(fn) != "\nNumber of positive STL tests: 0/0") R.fail("empty-log-differs", slurp(fn));
    }
    unlink(fn.c_str());
}
// dump(): one file per formula holding its signal; Signal::dumpFile
MODULE(dumps) {
    odd_names(r);
    Prof p;
    p.linear = r.chance(70);
    p.max_depth = 2;
    p.decimals = false;
    p.long_traces = false;
    p.cover = r.chance(80) ? 1 : 0;
    Case c = gen_case(r, p);
    if (!eligible(c)) { R.skipped++; return; }
    if (chdir(dir().c_str())) return;
    STLDriver d;
    Names nm;
    std::string text = case_text(c) + "\nneg := not phi\n";
    if (!d.parse_string(text)) { R.fail("formula-rejected", text); return; }
    d.set_interpol(int_name(c.linear));
    for (auto &row : c.tr) d.add_sample(row);
    STLMonitor m[2] = {d.get_monitor("phi"), d.get_monitor("neg")};
    const char *names[2] = {"phi", "neg"};
    double t1 = c.t0;
    bool range = r.chance(70);
    if (range) t1 = std::max(c.t0, c.t0 + r.range(0, 24) * 0.25);
    double want[2] = {m[0].eval_rob(c.t0, t1), m[1].eval_rob(c.t0, t1)};
    for (int k = 0; k < 2; k++) {
        if (!range) d.get_online_rob(names[k], c.t0);
        d.formula_map[names[k]]->set_horizon(c.t0, t1);
    }
    if (r.chance(30)) std::ofstream(dir() + "/" + names[r.below(2)] + ".out") << std::string(r.range(1, 3000), '9') << "\n";
    d.dump();
    R.evals++;
    for (int k = 0; k < 2; k++) {
        std::string fn = dir() + "/" + names[k] + ".out", txt = slurp(fn);
        Signal z = m[k].get_signal();
        if (r.chance(30)) std::ofstream(dir() + "/z.out") << std::string(r.range(1, 3000), '9') << "\n";
        z.dumpFile(dir() + "/z.out");
        std::string txt2 = slurp(dir() + "/z.out");
        std::istringstream is(txt);
        std::string line;
        size_t i = 0;
        std::string full = describe(c) + "\n" + names[k] + ".out:\n" + txt + "\nrobustness " + dnum(want[k]);
        while (std::getline(is, line)) {
            std::istringstream ls(line);
            double a, b, e;
            if (!(ls >> a >> b >> e)) { R.fail("dump-not-readable", full); return; }
            auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-6 * (1 + std::fabs(y)); };
            if (i < z.size() && (!near(a, z[i].time) || !near(b, z[i].value) || std::fabs(e - z[i].derivative) > 1e-4 * (1 + std::fabs(z[i].derivative)))) { R.fail("dump-differs-from-signal", full); return; }
            i++;
        }
        R.count("samples dumped", (long)i);
        if (i != z.size() || i == 0) { R.fail("dump-differs-from-signal", full); return; }
        if (txt != txt2) { R.fail("dump-differs-from-dumpFile", full + "\n" + txt2); return; }
        unlink(fn.c_str());
    }
    unlink((dir() + "/z.out").c_str());
    if (fdepth(c.f)) R.nontrivial(fingerprint(c));
}
// ---------------------------------------------------------------- tests in a specification
namespace {
struct T1 { std::string id; F f; std::map<int, double> loc; std::string pos, neg; bool err; };
struct TB { std::string id, env; double sim; bool visu; std::vector<T1> tests; };
std::string rtext(Rng &r) {
    static const char *w[] = {"overshoot", "signal too high", "ok, fine", "{", "(x)", "# not a comment", "100%", "param", ":=", "a \\\" quote", "test"};
    std::string s;
    int n = r.below(3);
    for (int i = 0; i < n; i++) s += (i ? " " : "") + std::string(w[r.below(11)]);
    return s;
}
}
MODULE(spec_tests) {
    odd_names(r);
    GenOpt g;
    g.maxb = 4;
    Case c;
    c.nsig = g.nsig;
    c.linear = r.chance(65);
    c.par = gen_params(r, g);
    c.t0 = 0;
    Names nm;
    bool lin = c.linear;
    double start = r.chance(75) ? 0 : -r.range(1, 8) * 0.25;
    c.tr = gen_trace(r, g, start, 24, 60);
    auto ok = [&](const F &f, const std::vector<double> &par) { Case k = c; k.f = f; k.par = par; return valid_form(f, par) && !(lin && nonlinear(f, k)) && horizon(f, par) <= c.tr.back()[0]; };
    std::vector<TB> bl;
    std::string text = decl_text(c);
    std::map<std::string, T1> known;
    int nb = r.range(1, 3), uid = 0;
    for (int b = 0; b < nb; b++) {
        TB B;
        B.id = "trace" + std::to_string(b);
        B.env = r.chance(30) ? "" : "env" + std::to_string(r.below(9)) + " a=" + std::to_string(r.below(9));
        bool full = r.chance(60);
        B.sim = full ? r.range(0, 80) * 0.25 : 0;
        B.visu = full && r.chance(50);
        text += "test " + B.id + " : \"" + B.env + "\"" + (full ? ", " + num(B.sim) + ", " + (B.visu ? "true" : "false") : "") + "\n{\n";
        int nt = r.range(1, 4);
        for (int k = 0; k < nt; k++) {
            T1 t;
            bool ref = !known.empty() && r.chance(40);
            if (ref) { auto it = known.begin(); std::advance(it, r.below((int)known.size())); t = it->second; t.loc.clear(); }
            else {
                t.id = "T" + std::to_string(uid++);
                t.f = gen_form(r, g, c.par, r.range(0, 3));
                if (!ok(t.f, c.par)) { R.skipped++; return; }
                t.pos = rtext(r); t.neg = rtext(r); t.err = r.chance(50);
            }
            if (r.chance(50)) for (int q = 0; q < 2; q++) if (r.chance(60)) t.loc[q] = gval(r, g);
            std::vector<double> par = c.par;
            for (auto &l : t.loc) par[l.first] = l.second;
            if (!ok(t.f, par)) { R.skipped++; return; }
            text += "  " + t.id;
            if (!t.loc.empty()) {
                text += " (";
                bool first = true;
                for (auto &l : t.loc) { text += (first ? "" : ", ") + nm.par[l.first] + "=" + num(l.second); first = false; }
                text += ")";
            }
            if (!ref) text += "\n  {\n    " + form_text(t.f, nm) + ",\n    \"" + t.pos + "\", \"" + t.neg + "\", " + (t.err ? "true" : "false") + "\n  }";
            text += "\n";
            if (!ref) known[t.id] = t;
            B.tests.push_back(t);
        }
        text += "}\n";
        bl.push_back(B);
    }
    STLDriver d0;
    if (!d0.parse_string(text)) { R.fail("spec-rejected", text); return; }
    d0.set_interpol(int_name(lin));
    for (auto &row : c.tr) d0.add_sample(row);
    STLDriver d = r.chance(30) ? STLDriver(d0) : r.chance(20) ? STLDriver(std::move(d0)) : std::move(d0);
    bool redo = r.chance(20);
    STLDriver twin;
    if (redo) twin = d;
    if (r.chance(20) && d.dump_test_log_file(dir() + "/nowhere/none")) { R.fail("log-written-nowhere", "before any test was run"); return; }
    std::string log = text + describe(Case{c.nsig, c.par, fatom(esig(0), false, econst(0)), c.tr, 0, lin}) + "\n";
    R.evals++;
    std::string exp_log;
    int pos = 0, total = 0;
    for (auto &B : bl) total += (int)B.tests.size();
    std::vector<double> glob = c.par;
    bool und = false, changed = false;
    std::string report, tlog;
    for (auto &B : bl) {
        if (r.chance(25)) {    // a global parameter changes between two runs
            int q = r.below(2);
            double v = gval(r, g);
            bool legal = true;
            std::vector<double> gl = glob; gl[q] = v;
            for (auto &C : bl) for (auto &t : C.tests) { std::vector<double> par = gl; for (auto &l : t.loc) par[l.first] = l.second; if (!ok(t.f, par)) legal = false; }
            if (legal) { glob = gl; changed = true; d.set_param(nm.par[q], v); if (redo) twin.set_param(nm.par[q], v); log += "set_param(" + nm.par[q] + ", " + num(v) + ")\n"; }
        }
        const trace_test *tt = d.get_next_trace_test();
        if (d.trace_test_queue_empty() || !tt || tt->id != B.id || tt->env != B.env || tt->sim_time != B.sim || tt->visu != B.visu || tt->tests.size() != B.tests.size() || d.get_next_trace_test_env() != B.env) { R.fail("trace-test-differs", log + "block " + B.id); return; }
        for (size_t k = 0; k < B.tests.size(); k++) {
            auto &t = B.tests[k];
            auto &s = tt->tests[k];
            std::map<std::string, double> loc;
            for (auto &l : t.loc) loc[nm.par[l.first]] = l.second;
            if (s.test_id != t.id || s.report_positive != t.pos || s.report_negative != t.neg || s.is_error != t.err || s.param_map != loc || !s.formula) { R.fail("queued-test-differs", log + "test " + t.id + " of " + B.id); return; }
        }
        size_t at = d.report.size(), lat = d.test_log.size();
        std::string before = d.report, lbefore = d.test_log;
        int posb = d.nb_test_pos;
        bool ret = d.run_tests(), err = false;
        std::string got = d.report.substr(std::min(at, d.report.size())), lgot = d.test_log.substr(std::min(lat, d.test_log.size()));
        std::string all = log + "report of " + B.id + ":\n" + got + "\nlog:\n" + lgot;
        if (d.report.compare(0, at, before) || d.test_log.compare(0, lat, lbefore)) { R.fail("earlier-report-changed", all); return; }
        std::istringstream is(got), il(lgot);
        std::string line, ll;
        std::getline(is, line);
        if (line != "stl_test " + B.id) { R.fail("report-differs", all); return; }
        for (auto &t : B.tests) {
            std::vector<double> par = glob;
            for (auto &l : t.loc) par[l.first] = l.second;
            Case k = c;
            k.f = t.f; k.par = par; k.t0 = 0;
            Ctx x = ctx(k);
            double v = value(t.f, true, x, 0);
            std::getline(is, line);
            std::getline(il, ll);
            size_t p1 = line.find(": "), p2 = line.rfind("  --> ");
            if (p1 == std::string::npos || p2 == std::string::npos || line.substr(0, p1) != "    " + t.id) { R.fail("report-differs", all + "\nat test " + t.id); return; }
            std::string ns = line.substr(p1 + 2, p2 - p1 - 2), verdict = line.substr(p2 + 6);
            double got_v = strtod(ns.c_str(), nullptr);
            R.count("tests run");
            if (!t.loc.empty()) R.count("with local parameters");
            if (std::fabs(got_v - v) > 2e-5 * (1 + std::fabs(v))) { R.fail("test-robustness-differs", all + "\ntest " + t.id + " expected " + dnum(v)); return; }
            if (ll != t.id + ": " + ns) { R.fail("test-log-differs", all); return; }
            if (std::fabs(v) < 1e-9) und = true;
            if (std::fabs(v) >= 1e-9 && verdict != (v > 0 ? "PB" : "OK")) { R.fail("verdict-differs", all + "\ntest " + t.id); return; }
            if ((ns == "0" || ns == "-0") && verdict != "OK") { R.fail("verdict-differs", all + "\ntest " + t.id + ": a robustness of exactly 0 is not positive"); return; }
            bool pb = verdict == "PB";
            if (pb) { pos++; posb++; if (t.err) err = true; R.count("positive"); }
            std::string txt = pb ? t.pos : t.neg;
            if (!txt.empty()) { std::getline(is, line); if (line != "    " + txt) { R.fail("report-text-differs", all + "\ntest " + t.id); return; } }
        }
        std::getline(is, line);
        if (!line.empty() || std::getline(is, line) || std::getline(il, ll)) { R.fail("report-differs", all); return; }
        if (ret != err || d.error_flag != err) { R.fail("error-flag-differs", all); return; }
        if (d.nb_test_pos != posb) { R.fail("positive-count-differs", all); return; }
    }
    if (und) R.count("with a zero robustness");
    if (!d.trace_test_queue_empty() || d.nb_test_pos != pos || d.nb_test_total != total) { R.fail("test-counts-differ", log + "positive " + std::to_string(d.nb_test_pos) + " of " + std::to_string(d.nb_test_total)); return; }
    std::string rep = d.report;
    if (d.run_tests() || d.report != rep) { R.fail("run-of-empty-queue", log); return; }
    std::string fn = dir() + "/tests.log";
    if (!d.dump_test_log_file(fn) || slurp(fn) != d.test_log + "\nNumber of positive STL tests: " + std::to_string(pos) + "/" + std::to_string(total)) { R.fail("log-file-differs", log + slurp(fn)); return; }
    if (d.dump_test_log_file(dir() + "/nowhere/none")) R.fail("log-written-nowhere", log);
    unlink(fn.c_str());
    if (redo) {   // a copy made before the tests still has all of them
        while (!twin.trace_test_queue_empty()) twin.run_tests();
        if (!changed && (twin.report != d.report || twin.nb_test_pos != pos)) { R.fail("copy-reports-differently", log + d.report + "\ncopy:\n" + twin.report); return; }
        R.count("copies run");
    }
    R.nontrivial(hash_str(log));
    if (log.size() < 900) R.sample(log);
}
