// Model-based sequences of operations on drivers and monitors. Each object has a shadow (texts accepted, parameters,
// samples, semantics, interpolation); whatever happened before, its answers must be those of an object freshly built
// from the shadow.
#include "evalcheck.hpp"
#include <memory>
using namespace mon;
using namespace STLRom;
namespace {
struct Shadow {
    std::vector<std::string> texts;
    std::vector<std::pair<std::string, F>> forms;
    std::vector<double> par;
    std::vector<std::vector<double>> tr;
    SemK sem = SPACE;
    bool linear = true;
    std::vector<std::string> cols;     // declared signals, in order
    std::string phi;                   // monitors: the formula
    double st = 0, en = 0;             // monitors: evaluation times
    std::vector<Sample> sig;           // monitors: signal of the last evaluation
    R3 last{0, 0, 0};                  // monitors: its numbers
    std::vector<std::string> tests;    // drivers: names of formula tests
    std::deque<std::string> queue;     // drivers: trace tests to run
    std::string report, tlog;
    int pos = 0, total = 0;
    bool err = false;
};
struct Obj {
    std::unique_ptr<STLDriver> d;
    std::unique_ptr<STLMonitor> m;
    Shadow s;
};
#define PN Names::cur().par
struct Model {
    Run &R;
    Rng &r;
    GenOpt g;
    std::vector<Obj> objs;
    std::string log;
    long checks = 0;
    double last_t0 = NAN;
    Model(Run &R, Rng &r) : R(R), r(r) { g.nsig = 2; }
    void note(const std::string &s) { log += s + "\n"; }
    std::string who(size_t i) { return "obj" + std::to_string(i); }

    std::unique_ptr<STLDriver> fresh(const Shadow &s) {
        std::unique_ptr<STLDriver> d(new STLDriver);
        for (auto &t : s.texts) if (!d->parse_string(t)) return nullptr;
        for (size_t i = 0; i < s.par.size(); i++) d->set_param(PN[i], s.par[i]);
        d->set_interpol(int_name(s.linear));
        d->set_semantics(sem_name(s.sem));
        for (auto &row : s.tr) d->add_sample(row);
        return d;
    }
    bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
    bool same_signal(const Signal &a, const std::vector<Sample> &b) {
        if (a.size() != b.size()) return false;
        for (size_t k = 0; k < b.size(); k++) if (!close(a[k].time, b[k].time) || !close(a[k].value, b[k].value) || !close(a[k].derivative, b[k].derivative)) return false;
        return true;
    }
    std::string signal_text(const std::vector<Sample> &b) { std::string t; for (auto &x : b) t += " (" + dnum(x.time) + "," + dnum(x.value) + "," + dnum(x.derivative) + ")"; return t; }
    R3 numbers(STLMonitor &m) { return {m.get_rob(), m.get_lower_rob(), m.get_upper_rob()}; }
    // what can be read off an object without evaluating anything
    void state(size_t i) {
        Obj &o = objs[i];
        if (o.d) {
            STLDriver &d = *o.d;
            if (d.nb_test_total != o.s.total || d.nb_test_pos != o.s.pos || d.report != o.s.report || d.test_log != o.s.tlog || d.error_flag != o.s.err || d.trace_test_queue.size() != o.s.queue.size())
                { R.fail("test-state-differs", log + who(i) + ": " + std::to_string(d.nb_test_pos) + "/" + std::to_string(d.nb_test_total) + ", " + std::to_string(d.trace_test_queue.size()) + " queued, expected " + std::to_string(o.s.pos) + "/" + std::to_string(o.s.total) + ", " + std::to_string(o.s.queue.size()) + "\n" + d.report); return; }
            std::set<std::string> have, want;
            for (auto &f : d.formula_map) if (f.second) have.insert(f.first);
            for (auto &f : o.s.forms) want.insert(f.first);
            if (have != want) { std::string t; for (auto &f : have) t += " " + f; R.fail("formulas-differ", log + who(i) + " has" + t); return; }
            if (d.param_map.size() != 3 || d.signal_map.size() != o.s.cols.size()) { R.fail("declarations-differ", log + who(i)); return; }
            for (size_t k = 0; k < o.s.queue.size(); k++) if (d.trace_test_queue[k].id != o.s.queue[k] || d.trace_test_queue[k].tests.empty()) R.fail("test-queue-differs", log + who(i));
        } else {
            STLMonitor &m = *o.m;
            if (m.start_time != o.s.st || m.end_time != o.s.en) R.fail("evaluation-interval-changed", log + who(i) + ": [" + dnum(m.start_time) + "," + dnum(m.end_time) + "], set to [" + dnum(o.s.st) + "," + dnum(o.s.en) + "]");
            R3 n = numbers(m), l = o.s.last;
            if (memcmp(&n, &l, sizeof n)) R.fail("last-answer-changed", log + who(i) + ": " + str(n) + ", was " + str(l));
            Signal g = m.get_signal();
            if (!same_signal(g, o.s.sig)) R.fail("signal-changed", log + who(i) + ": " + signal_text(std::vector<Sample>(g.begin(), g.end())) + "\nexpected" + signal_text(o.s.sig));
        }
        const trace_data &data = o.d ? o.d->data : o.m->data;
        if (data != o.s.tr) R.fail("data-differs", log + who(i));
        R.count("states compared");
    }
    // a monitor that has no data may refuse: nothing else follows from it
    void without_data(Obj &o, double a, double b) {
        try { o.m->eval_rob(a, b); } catch (const std::exception &) { R.count("evaluations refused without data"); }
        Signal g = o.m->get_signal();
        o.s.sig.assign(g.begin(), g.end());
        o.s.last = numbers(*o.m);
    }
    // an evaluation of a monitor over its own or a given interval, and the signal that comes with it
    void compare_interval(size_t i) {
        Obj &o = objs[i];
        if (!o.m) return;
        bool own = r.chance(60);
        double a = o.s.st, b = o.s.en;
        if (!own) { a = pick_t0(o.s); b = a + r.range(0, 12) * g.grid; }
        if (!(a <= b)) return;
        if (o.s.tr.empty()) { without_data(o, a, b); note(who(i) + ": evaluate without data"); return; }
        auto f = fresh(o.s);
        if (!f) { R.fail("fresh-driver-rejects-text", log); return; }
        STLMonitor n = f->get_monitor(o.s.phi);
        f.reset();
        double wv = n.eval_rob(a, b);
        Signal ws = n.get_signal();
        R3 want{wv, n.get_lower_rob(), n.get_upper_rob()};
        if (r.chance(20)) { Signal::set_semantics(sem_name((SemK)r.below(3))); Signal::set_interpol(int_name(r.chance(50))); }
        double v = own ? o.m->eval_rob() : o.m->eval_rob(a, b);
        R3 got{v, o.m->get_lower_rob(), o.m->get_upper_rob()};
        note(who(i) + (own ? ".eval_rob() over " : ".eval_rob over ") + dnum(a) + ".." + dnum(b));
        R.evals++;
        checks++;
        R.count("interval evaluations");
        o.s.sig.assign(ws.begin(), ws.end());
        o.s.last = got;
        if (!close(got.r, want.r) || !close(got.l, want.l) || !close(got.u, want.u)) { R.fail("differs-from-fresh", log + "got " + str(got) + ", a fresh monitor gives " + str(want)); return; }
        state(i);
    }
    void op_times(size_t i) {
        Obj &o = objs[i];
        if (!o.m) return;
        double a = pick_t0(o.s), b = a + r.range(0, 12) * g.grid;
        o.m->set_eval_time(a, b);
        o.s.st = a; o.s.en = b;
        note(who(i) + ".set_eval_time(" + dnum(a) + "," + dnum(b) + ")");
    }
    void op_test(size_t i) {               // declare a trace test
        Obj &o = objs[i];
        if (!o.d || o.s.queue.size() > 3) return;
        std::string id = "B" + std::to_string(serial++);
        std::string t = "test " + id + " : \"env\"\n{\n";
        std::vector<std::string> names;
        int n = r.range(1, 2);
        for (int k = 0; k < n; k++) {
            GenOpt h = g;
            h.maxb = 3;
            std::string loc = r.chance(30) ? "(" + PN[0] + "=" + num(gval(r, g)) + ") " : "";
            if (!o.s.tests.empty() && r.chance(30)) {        // one that was given before
                t += "  " + o.s.tests[r.below((int)o.s.tests.size())] + " " + loc + "\n";
                R.count("tests used again by name");
                continue;
            }
            F f = gen_form(r, h, o.s.par, r.range(0, 2));
            names.push_back("T" + std::to_string(serial++));
            t += "  " + names.back() + " " + loc + "{ " + form_text(f, Names()) + ", \"yes" + std::to_string(serial) + "\", \"no\", " + (r.chance(50) ? "true" : "false") + " }\n";
        }
        t += "}\n";
        note(who(i) + ".parse_string(" + t + ")");
        if (!o.d->parse_string(t)) { R.fail("test-rejected", log); return; }
        o.s.texts.push_back(t);
        o.s.queue.push_back(id);
        o.s.total += n;
        o.s.tests.insert(o.s.tests.end(), names.begin(), names.end());
    }
    void op_run_tests(size_t i) {
        Obj &o = objs[i];
        if (!o.d || o.s.tr.empty()) return;
        auto f = fresh(o.s);
        if (!f) { R.fail("fresh-driver-rejects-text", log); return; }
        while (!o.s.queue.empty() && !f->trace_test_queue_empty() && f->get_next_trace_test()->id != o.s.queue.front()) f->pop_next_trace_test();
        while (o.s.queue.empty() && !f->trace_test_queue_empty()) f->pop_next_trace_test();
        bool e = f->run_tests();
        note(who(i) + ".run_tests()");
        if (r.chance(20)) { Signal::set_semantics(sem_name((SemK)r.below(3))); Signal::set_interpol(int_name(r.chance(50))); }
        bool e2 = o.d->run_tests();
        if (!o.s.queue.empty()) o.s.queue.pop_front();
        o.s.report += f->report;
        o.s.tlog += f->test_log;
        o.s.pos += f->nb_test_pos;
        o.s.err = e;
        R.evals++;
        checks++;
        R.count("trace tests run");
        if (e != e2) R.fail("error-flag-differs", log);
        state(i);
    }
    void compare(size_t i, const std::string &phi, double t0) {
        Obj &o = objs[i];
        auto f = fresh(o.s);
        if (!f) { R.fail("fresh-driver-rejects-text", log); return; }
        R3 want, got;
        if (o.s.tr.empty() && o.d) {           // nothing was ever added: no answer
            if (!o.d->get_online_rob(phi, t0).empty()) R.fail("answer-without-data", log + who(i) + ": " + phi);
            return;
        }
        if (o.s.tr.empty()) { without_data(o, t0, t0); note(who(i) + ": evaluate " + phi + " without data"); return; }
        bool one = o.d && r.chance(15);        // the form without a time: at time 0
        if (one) t0 = 0.;
        auto e = f->get_online_rob(phi, t0);
        want = {e.at(0), e.at(1), e.at(2)};
        f.reset();
        if (r.chance(20)) { Signal::set_semantics(sem_name((SemK)r.below(3))); Signal::set_interpol(int_name(r.chance(50))); }
        if (o.d) {
            auto v = one ? o.d->get_online_rob(phi) : o.d->get_online_rob(phi, t0);
            if (v.size() != 3) { R.fail("no-answer", log + who(i) + ".get_online_rob(" + phi + "," + dnum(t0) + ")"); return; }
            got = {v[0], v[1], v[2]};
        } else {
            double v = o.m->eval_rob(t0);
            Signal g = o.m->get_signal();
            o.s.sig.assign(g.begin(), g.end());
            got = {v, o.m->get_lower_rob(), o.m->get_upper_rob()};
            o.s.last = got;
            if (o.m->get_rob() != v) R.fail("get_rob-differs", log);
        }
        R.evals++;
        checks++;
        note(who(i) + ": evaluate " + phi + " at " + dnum(t0));
        if (!close(got.r, want.r) || !close(got.l, want.l) || !close(got.u, want.u)) {
            std::string t;
            for (auto &x : o.s.texts) t += "   " + x + "\n";
            R.fail("differs-from-fresh", log + "got " + str(got) + ", a fresh evaluator gives " + str(want) + "\n" + t);
        } else if (r.chance(absolute)) against_reference(o.s, phi, t0, got);
    }
    // what is shared by all objects of the process would be wrong in a fresh one, too
    int absolute = 5;
    void against_reference(const Shadow &s, const std::string &phi, double t0, const R3 &got) {
        Case c;
        for (auto &f : s.forms) if (f.first == phi) c.f = f.second;
        if (!c.f || s.tr.size() > 300) return;
        c.par = s.par; c.t0 = t0; c.linear = s.linear; c.sem = s.sem;
        std::vector<size_t> at;
        for (int k = 0; k < 2; k++) at.push_back(1 + (std::find(s.cols.begin(), s.cols.end(), Names().sig[k]) - s.cols.begin()));
        for (auto &row : s.tr) c.tr.push_back({row[0], row[at[0]], row[at[1]]});
        if (!eligible(c)) return;
        bool dec = true;
        std::string bad;
        if (c.sem != SPACE) bad = covered(c) ? judge_time(c, got, dec) : "";
        else bad = covered(c) ? judge_covered(c, got) : judge_partial(c, got);
        R.count("answers compared with the reference");
        if (!bad.empty()) R.fail(bad, log + "got " + str(got) + "\n" + describe(c) + "\n" + ref_str(c));
    }
    double pick_t0(const Shadow &s) {
        if (s.tr.empty()) return r.range(0, 3);
        double a = s.tr[0][0], b = s.tr.back()[0];
        if (r.chance(5)) return a - r.range(1, 12) * g.grid;          // before the first sample
        if (last_t0 >= a && r.chance(30)) return last_t0;      // the same time again
        return last_t0 = a + std::floor(r.unit() * ((b - a) / g.grid + 4)) * g.grid;
    }
    void check(size_t i) {
        Obj &o = objs[i];
        state(i);      // as the operations left it, before it is evaluated again
        if (o.d) {
            if (o.s.forms.empty()) return;
            auto &f = o.s.forms[r.below((int)o.s.forms.size())];
            compare(i, f.first, pick_t0(o.s));
        } else if (r.chance(35)) compare_interval(i);
        else compare(i, o.s.phi, pick_t0(o.s));
        state(i);
    }
    void check_all() {
        for (size_t i = 0; i < objs.size(); i++) {
            state(i);
            if (objs[i].d) for (auto &f : std::vector<std::pair<std::string, F>>(objs[i].s.forms)) compare(i, f.first, pick_t0(objs[i].s));
            else { compare_interval(i); check(i); }
            state(i);
        }
    }
    std::string cols_text(const Shadow &s) { std::string t; for (auto &c : s.cols) t += (t.empty() ? "" : " ") + c; return t; }
    std::string declared(const Shadow &s) { std::string t = "signal "; for (size_t k = 0; k < s.cols.size(); k++) t += (k ? ", " : "") + s.cols[k]; return t + "\n"; }
    Obj start() {
        Obj o;
        o.s.par = gen_params(r, g);
        // not every object knows the same signals in the same columns
        o.s.cols = {Names().sig[0], Names().sig[1]};
        if (r.chance(25)) o.s.cols.insert(o.s.cols.begin() + r.below(3), Names().sig[2]);
        if (r.chance(30)) std::swap(o.s.cols.front(), o.s.cols.back());
        if (r.chance(75)) o.d.reset(new STLDriver);
        else {       // from rows
            double t = r.range(0, 4) * g.grid;
            for (int k = r.range(0, 3); k > 0; k--) { std::vector<double> row{t}; for (size_t q = 0; q < o.s.cols.size(); q++) row.push_back(gval(r, g)); o.s.tr.push_back(row); t += r.range(1, 4) * g.grid; }
            o.d.reset(new STLDriver(o.s.tr));
            R.count("drivers made from rows");
        }
        std::string t = declared(o.s) + "param " + PN[0] + "=" + num(o.s.par[0]) + ", " + PN[1] + "=" + num(o.s.par[1]) + ", " + PN[2] + "=" + num(o.s.par[2]) + "\n";
        if (!o.d->parse_string(t)) R.fail("declaration-rejected", t);
        o.s.texts.push_back(t);
        o.s.linear = true;
        return o;
    }
    int serial = 0;
    void op_formula(size_t i) {
        Obj &o = objs[i];
        if (!o.d || o.s.forms.size() > 5) return;
        GenOpt h = g;
        h.maxb = r.chance(80) ? 3 : 8;
        F f = gen_form(r, h, o.s.par, r.range(0, 3));
        std::string name = "f" + std::to_string(serial++), t;
        if (!o.s.forms.empty() && r.chance(35)) {   // refer to an earlier formula
            auto &e = o.s.forms[r.below((int)o.s.forms.size())];
            Form::K k = r.chance(50) ? Form::AND : Form::OR;
            t = name + " := (" + e.first + (k == Form::AND ? " and " : " or ") + form_text(f, Names()) + ")";
            f = fbin(k, e.second, f);
        } else t = name + " := " + form_text(f, Names());
        note(who(i) + ".parse_string(" + t + ")");
        if (!o.d->parse_string(t)) { R.fail("formula-rejected", log); return; }
        o.s.texts.push_back(t);
        o.s.forms.push_back({name, f});
    }
    void op_sample(size_t i) {
        Obj &o = objs[i];
        int n = r.range(1, 4);
        for (int k = 0; k < n; k++) {
            double t = o.s.tr.empty() ? (r.chance(70) ? 0 : r.range(-8, 8) * g.grid) : o.s.tr.back()[0] + r.range(1, 8) * g.grid;
            std::vector<double> row{t};
            while (row.size() <= o.s.cols.size()) row.push_back(gval(r, g));
            if (o.d) o.d->add_sample(row); else o.m->add_sample(row);
            o.s.tr.push_back(row);
        }
        note(who(i) + ".add_sample x" + std::to_string(n) + " up to t=" + dnum(o.s.tr.back()[0]));
    }
    void op_param(size_t i) {
        Obj &o = objs[i];
        std::vector<double> np = o.s.par;
        int k = r.below(3);
        np[k] = k < 2 ? gval(r, g) : r.range(0, 24) * g.grid;
        for (auto &f : o.s.forms) if (!valid_form(f.second, np)) return;
        if (o.d && r.chance(25)) {       // declared again in a text
            std::string t = std::string("param ") + PN[k] + "=" + num(np[k]);
            note(who(i) + ".parse_string(" + t + ")");
            if (!o.d->parse_string(t)) { R.fail("declaration-rejected", log); return; }
        } else {
            if (o.d) o.d->set_param(PN[k], np[k]); else o.m->set_param(PN[k], np[k]);
            note(who(i) + ".set_param(" + PN[k] + "," + dnum(np[k]) + ")");
        }
        o.s.par = np;
        if ((o.d ? o.d->get_param(PN[k]) : o.m->get_param(PN[k])) != np[k]) R.fail("get_param-differs", log);
    }
    void op_mode(size_t i) {
        Obj &o = objs[i];
        if (r.chance(50)) {
            o.s.linear = r.chance(50);
            if (o.d) o.d->set_interpol(int_name(o.s.linear)); else o.m->set_interpol(int_name(o.s.linear));
            if ((o.d ? o.d->get_interpol() : o.m->get_interpol()) != int_name(o.s.linear)) R.fail("get_interpol-differs", log);
        } else {
            o.s.sem = (SemK)r.below(3);
            if (o.d) o.d->set_semantics(sem_name(o.s.sem)); else o.m->set_semantics(sem_name(o.s.sem));
            if ((o.d ? o.d->get_semantics() : o.m->get_semantics()) != sem_name(o.s.sem)) R.fail("get_semantics-differs", log);
        }
        note(who(i) + ": " + int_name(o.s.linear) + " " + sem_name(o.s.sem));
    }
    void op_noise(size_t i) {
        Obj &o = objs[i];
        std::ostringstream os;
        switch (r.below(9)) {
        case 0: if (o.d) o.d->print(os); else os << *o.m; note(who(i) + ": print"); break;
        case 1: if (o.d) { note(who(i) + ".parse_string(malformed)"); if (o.d->parse_string("bad := (x[t] > ) and y[t] > 0")) R.fail("malformed-text-accepted", log); } else o.m->get_signal(); break;
        case 2: if (o.d) { auto v = o.d->get_online_rob("nosuchformula", 0); if (!v.empty()) R.fail("unknown-formula-answered", log); } else o.m->display_formula(); break;
        case 3: if (o.d) o.d->print_trace(os); else if (!o.s.tr.empty()) { note(who(i) + ".eval_rob(a,b)"); o.m->eval_rob(o.s.tr[0][0], o.s.tr.back()[0]); o.s.last = numbers(*o.m); Signal g = o.m->get_signal(); o.s.sig.assign(g.begin(), g.end()); } break;
        case 4: if (o.d) o.d->get_signals_names(); else if (o.m->get_signal_names() != cols_text(o.s)) R.fail("signal-names-differ", log); break;
        case 5: if (o.d) o.d->set_param("nosuchparam", 1); else { try { o.m->set_param("nosuchparam", 1); R.fail("unknown-parameter-accepted", log); } catch (const std::invalid_argument &) {} } break;
        case 7: try { if (o.d) o.d->set_interpol("CUBIC"); else o.m->set_interpol("CUBIC"); R.count("unknown interpolations let pass"); } catch (const std::invalid_argument &) {} break;
        case 8: try { if (o.d) o.d->set_semantics("space"); else o.m->set_semantics("space"); R.count("unknown semantics let pass"); } catch (const std::invalid_argument &) {} break;
        case 6: try { if (o.d) o.d->add_sample({0.}); else o.m->add_sample({0.}); R.fail("short-sample-accepted", log); } catch (const std::invalid_argument &) {} break;
        }
    }
    void op_monitor(size_t i) {
        Obj &o = objs[i];
        if (!o.d || o.s.forms.empty() || objs.size() > 6) return;
        auto &f = o.s.forms[r.below((int)o.s.forms.size())];
        Obj n;
        n.s = o.s;
        n.s.phi = f.first;
        n.s.queue.clear();
        n.m.reset(new STLMonitor(o.d->get_monitor(f.first)));
        n.s.last = numbers(*n.m);
        note(who(objs.size()) + " = " + who(i) + ".get_monitor(" + f.first + ")");
        objs.push_back(std::move(n));
    }
    void op_reset(size_t i) {
        Obj &o = objs[i];
        if (o.d && r.chance(40)) {       // forget formulas, parameters and tests; signals and data stay
            auto old = o.s.forms;
            o.d->clear();
            note(who(i) + ".clear()");
            for (auto &f : old) if (!o.s.tr.empty() && !o.d->get_online_rob(f.first, o.s.tr[0][0]).empty()) R.fail("formula-survives-clear", log);
            for (auto p : PN) if (o.d->get_param(p) != 0) R.fail("parameter-survives-clear", log);
            std::string t = "param " + PN[0] + "=" + num(o.s.par[0]) + ", " + PN[1] + "=" + num(o.s.par[1]) + ", " + PN[2] + "=" + num(o.s.par[2]);
            if (!o.d->parse_string(t)) { R.fail("declaration-rejected", log + t); return; }
            o.s.texts = {declared(o.s), t};
            o.s.forms.clear();
            o.s.queue.clear();
            o.s.tests.clear();
            o.s.report = o.s.tlog = "";
            o.s.pos = o.s.total = 0;
            o.s.err = false;
            state(i);
            op_formula(i);
            if (!old.empty() && r.chance(50)) {   // a name may be used again
                auto f = old[r.below((int)old.size())];
                if (valid_form(f.second, o.s.par)) {
                    std::string u = f.first + " := " + form_text(f.second, Names());
                    note(who(i) + ".parse_string(" + u + ")");
                    if (!o.d->parse_string(u)) { R.fail("formula-rejected", log); return; }
                    o.s.texts.push_back(u);
                    o.s.forms.push_back(f);
                }
            }
            return;
        }
        if (!o.m) return;
        o.m->reset_signal_data();
        o.s.tr.clear();
        note(who(i) + ".reset_signal_data()");
        op_sample(i);
    }
    // data replaced by hand: the next answer is that of the new data
    void op_edit(size_t i) {
        Obj &o = objs[i];
        if (o.s.tr.empty()) return;
        std::string phi = o.s.phi;
        if (o.d) { if (o.s.forms.empty()) return; phi = o.s.forms[r.below((int)o.s.forms.size())].first; }
        double t0 = pick_t0(o.s);
        compare(i, phi, t0);
        trace_data tr = o.s.tr;
        int n = r.range(1, 3);
        for (int k = 0; k < n; k++) tr[r.below((int)tr.size())][1 + r.below((int)o.s.cols.size())] = gval(r, g);
        if (r.chance(15)) tr.pop_back();
        else if (r.chance(15)) for (auto &row : tr) row[0] += g.grid;
        if (tr.empty()) return;
        trace_data &data = o.d ? o.d->data : o.m->data;
        if (r.chance(50)) data = tr;
        else { data.resize(tr.size()); for (size_t k = 0; k < tr.size(); k++) data[k] = tr[k]; }
        o.s.tr = tr;
        note(who(i) + ".data changed by hand");
        R.count("data changed by hand");
        compare(i, phi, t0);
        state(i);
    }
    void op_copy(size_t i) {
        bool isd = (bool)objs[i].d;
        int k = r.below(5);
        if (k == 0 && objs.size() < 7) {
            Obj n;
            n.s = objs[i].s;
            if (isd) n.d.reset(new STLDriver(*objs[i].d)); else n.m.reset(new STLMonitor(*objs[i].m));
            note(who(objs.size()) + "(copy of " + who(i) + ")");
            objs.push_back(std::move(n));
        } else if (k == 1) {      // copy assignment, possibly to itself
            size_t j = r.below((int)objs.size());
            if ((bool)objs[j].d != isd) return;
            if (isd) *objs[j].d = *objs[i].d; else *objs[j].m = *objs[i].m;
            objs[j].s = Shadow(objs[i].s);
            note(who(j) + " = " + who(i));
        } else if (k == 2) {      // through a move construction
            if (isd) { std::unique_ptr<STLDriver> n(new STLDriver(std::move(*objs[i].d))); objs[i].d = std::move(n); }
            else { std::unique_ptr<STLMonitor> n(new STLMonitor(std::move(*objs[i].m))); objs[i].m = std::move(n); }
            note(who(i) + " = new object moved from " + who(i));
        } else if (k == 3) {      // move assignment; the source is then destroyed or assigned again
            size_t j = r.below((int)objs.size());
            if (j == i || (bool)objs[j].d != isd) return;
            if (isd) *objs[j].d = std::move(*objs[i].d); else *objs[j].m = std::move(*objs[i].m);
            objs[j].s = objs[i].s;
            note(who(j) + " = move(" + who(i) + ")");
            if (r.chance(50)) {
                if (isd) *objs[i].d = *objs[j].d; else *objs[i].m = *objs[j].m;
                note(who(i) + " = " + who(j));
            } else { note("destroy " + who(i)); objs.erase(objs.begin() + i); note("(renumbered)"); }
        } else if (objs.size() > 1) {
            note("destroy " + who(i) + " (renumbered)");
            objs.erase(objs.begin() + i);
        }
    }
    void run(int nops, int w_copy, int w_mode, int w_monitor, int drivers) {
        for (int k = 0; k < drivers; k++) {
            objs.push_back(start());
            op_formula(k);
            if (r.chance(60)) op_sample(k);
            if (w_mode > 10) { op_mode(k); op_mode(k); }
        }
        for (int k = 0; k < nops; k++) {
            size_t i = r.below((int)objs.size());
            int x = r.below(100 + w_copy + w_mode + w_monitor);
            if (x < 18) op_formula(i);
            else if (x < 42) op_sample(i);
            else if (x < 54) op_param(i);
            else if (x < 64) op_noise(i);
            else if (x < 67) op_reset(i);
            else if (x < 70) op_edit(i);
            else if (x < 72) op_times(i);
            else if (x < 75) op_test(i);
            else if (x < 79) op_run_tests(i);
            else if (x < 100) check(i);
            else if (x < 100 + w_copy) op_copy(i);
            else if (x < 100 + w_copy + w_mode) op_mode(i);
            else op_monitor(i);
            if (!objs.empty() && r.chance(40)) check(r.below((int)objs.size()));
        }
        check_all();
        R.count("operations", nops);
        R.count("comparisons", checks);
        R.count("objects alive at the end", (long)objs.size());
        if (checks >= 3) R.nontrivial(hash_str(log));
        if (checks >= 3 && log.size() < 900) R.sample(log);
    }
};
}
MODULE(purity) { odd_names(r); Model m(R, r); m.run(r.range(8, 25), 0, 4, 3, 1); }
MODULE(values_copy) { odd_names(r); Model m(R, r); m.run(r.range(10, 30), 60, 4, 25, r.range(1, 2)); }
MODULE(interference) { odd_names(r); Model m(R, r); m.absolute = 40; m.run(r.range(10, 25), 5, 25, 25, r.range(2, 4)); }

// ---------------------------------------------------------------- parameters = substitution
static E subst(const E &e, const std::vector<double> &p) {
    if (e->k == Expr::PARAM) return econst(p[e->idx]);
    auto n = std::make_shared<Expr>(*e);
    if (e->l) n->l = subst(e->l, p);
    if (e->r) n->r = subst(e->r, p);
    return n;
}
static F subst(const F &f, const std::vector<double> &p) {
    auto n = std::make_shared<Form>(*f);
    if (f->k == Form::ATOM) { n->el = subst(f->el, p); n->er = subst(f->er, p); return n; }
    n->l = subst(f->l, p);
    if (f->r) n->r = subst(f->r, p);
    for (Bound *b : {&n->a, &n->b}) if (b->par >= 0) { b->c = p[b->par]; b->par = -1; }
    return n;
}
static int nparams(const E &e) { return (e->k == Expr::PARAM) + (e->l ? nparams(e->l) : 0) + (e->r ? nparams(e->r) : 0); }
static int nparams(const F &f) {
    if (f->k == Form::ATOM) return nparams(f->el) + nparams(f->er);
    return (f->a.par >= 0) + (f->b.par >= 0) + nparams(f->l) + (f->r ? nparams(f->r) : 0);
}
MODULE(params) {
    odd_names(r);
    GenOpt g;
    g.npar = 4;
    Case c;
    c.linear = r.chance(70);
    c.sem = r.chance(80) ? SPACE : r.chance(50) ? LEFT : RIGHT;
    c.par = gen_params(r, g);
    std::vector<double> par0 = c.par;
    for (int k = 0; k < 20; k++) { c.f = gen_form(r, g, c.par, r.range(1, 3)); if (nparams(c.f) >= 2) break; }
    c.tr = gen_trace(r, g, 0, r.range(0, 20), 20);
    std::string text = case_text(c), log = text + "\n";
    STLDriver d;
    if (!setup(d, c, text)) { R.fail("formula-rejected", text); return; }
    std::unique_ptr<STLMonitor> m(new STLMonitor(d.get_monitor("phi")));
    Names nm;
    int rounds = r.range(1, 5);
    bool did = false;
    for (int k = 0; k < rounds; k++) {
        std::vector<double> np = c.par;
        if (k && r.chance(20)) np = par0;
        else for (int tries = 0; tries < 10; tries++) {
            np = c.par;
            int i = r.below(4);
            if (c.sem == SPACE && r.chance(25)) { // a change of the last digits counts too
                static const double rel[] = {1e-3, 1e-5, 1e-7, 1e-9, 1e-12};
                double d = rel[r.below(5)] * std::max(1., std::fabs(np[i]));
                np[i] = i < 2 && r.chance(15) ? std::nextafter(np[i], INF) : np[i] + (r.chance(50) ? d : -d);
                if (i >= 2) np[i] = std::fabs(np[i]);
            } else np[i] = i < 2 ? gval(r, g) : r.range(0, 24) * g.grid;
            if (valid_form(c.f, np)) break;
            np = c.par;
        }
        for (size_t i = 0; i < np.size(); i++) if (np[i] != c.par[i] || r.chance(10)) {
            d.set_param(nm.par[i], np[i]);
            m->set_param(nm.par[i], np[i]);
            log += "set_param(" + nm.par[i] + "," + dnum(np[i]) + ")\n";
            if (d.get_param(nm.par[i]) != np[i] || m->get_param(nm.par[i]) != np[i]) R.fail("get_param-differs", log);
        }
        c.par = np;
        Case lit = c;
        lit.f = subst(c.f, np);
        lit.t0 = r.chance(60) ? 0 : r.range(0, 20) * g.grid;
        R3 want;
        if (!eval_driver(lit, want)) { R.fail("formula-rejected", describe(lit)); return; }
        auto v = d.get_online_rob("phi", lit.t0);
        if (v.size() != 3) { R.fail("no-answer", log); return; }
        R3 got{v[0], v[1], v[2]};
        double mv = m->eval_rob(lit.t0);
        R3 gm{mv, m->get_lower_rob(), m->get_upper_rob()};
        // the same arithmetic on the same numbers: nearly to the last bit
        auto eq1 = [](double a, double b) { return std::fabs(a - b) <= 1e-13 * (1 + std::fabs(b)); };
        auto close = [&](const R3 &a, const R3 &b) { return eq1(a.r, b.r) && eq1(a.l, b.l) && eq1(a.u, b.u); };
        R.evals++;
        if (!close(got, want)) R.fail("driver-differs-from-literal", log + "got " + str(got) + ", with literals " + str(want) + "\n" + describe(lit));
        if (!close(gm, want)) R.fail("monitor-differs-from-literal", log + "got " + str(gm) + ", with literals " + str(want) + "\n" + describe(lit));
        did = true;
    }
    R.count("parameter occurrences", nparams(c.f));
    if (did && nparams(c.f)) { R.nontrivial(hash_str(log)); if (log.size() < 500) R.sample(log); }
}

// ---------------------------------------------------------------- sample admission
MODULE(admission) {
    odd_names(r, 10);
    GenOpt g;
    Case c;
    c.par = gen_params(r, g);
    c.nsig = g.nsig = r.range(1, 3);
    c.linear = r.chance(60);
    c.f = gen_form(r, g, c.par, r.range(0, 2));
    std::string text = case_text(c), log = text + "\n";
    bool viam = r.chance(50);
    STLDriver d;
    if (!setup(d, c, text)) { R.fail("formula-rejected", text); return; }
    STLMonitor m = d.get_monitor("phi");
    m.set_interpol(int_name(c.linear));
    bool huge = r.below(2000) == 0;
    int n = huge ? (int)std::exp2(11 + r.unit() * 6.3) : r.range(3, 25);
    long rej = 0, spec = 0;
    bool odd = r.chance(25);               // values no sensor should give, kept all the same
    static const double ODD[] = {NAN, INF, -INF, 1e305, -1e305, -0., 5e-324, 1e-300, 16777217., 0.1, -1e22};
    for (int k = 0; k < n; k++) {
        double last = c.tr.empty() ? 0 : c.tr.back()[0], t;
        int kind = huge && !r.chance(2) ? 0 : r.below(10);
        bool ok = true;
        if (kind < 5 || c.tr.empty()) t = last + (c.tr.empty() ? r.range(-4, 4) : r.range(1, 8)) * g.grid;
        else if (kind == 5) { t = last; ok = false; }
        else if (kind == 6) { t = last - r.range(1, 8) * g.grid; ok = false; }
        else if (kind == 7) { t = r.chance(50) ? -INF : NAN; ok = false; }
        else if (kind == 8) t = std::fabs(last) < 0.25 ? last + 0.25 : std::nextafter(last, INF);
        else { t = std::nextafter(last, -INF); ok = false; }
        size_t want = c.nsig + 1, len = want;
        if (r.chance(huge ? 1 : 25)) { len = r.below((int)want + 3); }
        if (len != want) ok = false;
        std::vector<double> row(len);
        for (size_t i = 0; i < len; i++) { row[i] = i ? gval(r, g) : t; if (i && odd && r.chance(30)) { row[i] = ODD[r.below(11)]; spec++; } }
        bool acc = true;
        try { if (viam) m.add_sample(row); else d.add_sample(row); }
        catch (const std::invalid_argument &) { acc = false; }
        if (log.size() < 20000) {
            log += std::string("add_sample([") ;
            for (size_t i = 0; i < len; i++) log += (i ? "," : "") + dnum(row[i]);
            log += std::string("]) ") + (acc ? "accepted\n" : "rejected\n");
        }
        if (acc != ok) { R.fail(ok ? "valid-sample-rejected" : "invalid-sample-accepted", log); return; }
        if (ok) c.tr.push_back(row); else rej++;
        const trace_data &td = viam ? m.data : d.data;
        bool eq = td.size() == c.tr.size();
        for (size_t i = huge && k < n - 1 && k % 1000 && td.size() > 3 ? td.size() - 3 : 0; eq && i < td.size(); i++) {
            eq = td[i].size() == c.tr[i].size();
            for (size_t j = 0; eq && j < td[i].size(); j++) eq = (td[i][j] == c.tr[i][j] && std::signbit(td[i][j]) == std::signbit(c.tr[i][j])) || (std::isnan(td[i][j]) && std::isnan(c.tr[i][j]));
        }
        if (!eq) { R.fail("trace-changed", log); return; }
        if (viam && (huge ? r.below(10000) == 0 : r.chance(5))) { m.reset_signal_data(); c.tr.clear(); log += "reset_signal_data()\n"; }
    }
    R.evals++;
    R.count("rejected samples", rej);
    R.count("accepted samples", (long)c.tr.size());
    if (rej && !c.tr.empty()) R.nontrivial(hash_str(log));
    if (rej && log.size() < 500) R.sample(log);
    R.count("extreme values", spec);
    if (c.tr.empty() || spec) return;      // what follows from values that are no numbers is not specified
    c.t0 = c.tr[0][0];
    R3 want;
    if (!eval_driver(c, want)) { R.fail("formula-rejected", text); return; }
    R3 got;
    if (viam) { double v = m.eval_rob(c.t0); got = {v, m.get_lower_rob(), m.get_upper_rob()}; }
    else { auto v = d.get_online_rob("phi", c.t0); got = {v.at(0), v.at(1), v.at(2)}; }
    if (!same(got, want)) R.fail("rejected-sample-changed-the-answer", log + "got " + str(got) + " expected " + str(want));
}
