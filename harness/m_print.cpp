// C22: what is printed describes the object: a printed formula reads back as the same formula, names and values are the
// current ones, and printing changes nothing.
#include "evalcheck.hpp"
#include <sstream>
using namespace mon;
using namespace STLRom;
namespace {
struct Capture {    // the members that print on standard output
    std::ostringstream o;
    std::streambuf *old;
    Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};
// the line(s) between a line "head" and the next line that is empty or ends in ':'
bool block(const std::string &all, const std::string &head, std::string &out) {
    std::istringstream in(all);
    std::string l;
    bool on = false;
    out.clear();
    while (std::getline(in, l)) {
        if (on && (l.empty() || l.back() == ':')) return !out.empty();
        if (on) out += l + "\n";
        if (l == head) on = true;
    }
    return on && !out.empty();
}
std::vector<std::string> split(const std::string &s, const std::string &sep) {
    std::vector<std::string> v;
    size_t i = 0, j;
    if (s.empty()) return v;
    while ((j = s.find(sep, i)) != std::string::npos) { v.push_back(s.substr(i, j - i)); i = j + sep.size(); }
    v.push_back(s.substr(i));
    return v;
}
// constants and bounds with more digits than a stream shows by default, large and small ones
double many_digits(Rng &r, double v, bool bound) {
    switch (r.below(bound ? 3 : 6)) {
    case 0: return v + (r.below(1000000) + 1) / 3e6;
    case 1: return v + std::ldexp(1., -r.range(20, 30));
    case 2: return v + r.range(1, 999999) * 1e-6;
    case 3: return v * 1e6 + r.range(-99, 99) * 0.125;
    case 4: return std::ldexp(r.range(-1000, 1000) / 7., -r.range(10, 60));
    default: return r.range(-1000, 1000) * 1e10 + r.unit();
    }
}
E fine_expr(Rng &r, const E &e) {
    if (e->k == Expr::CONST) return r.chance(60) ? econst(many_digits(r, e->c, false)) : e;
    auto g = std::make_shared<Expr>(*e);
    if (e->l) g->l = fine_expr(r, e->l);
    if (e->r) g->r = fine_expr(r, e->r);
    return g;
}
F fine_form(Rng &r, const F &f) {
    auto g = std::make_shared<Form>(*f);
    if (f->k == Form::ATOM) { g->el = fine_expr(r, f->el); g->er = fine_expr(r, f->er); return g; }
    g->l = fine_form(r, f->l);
    if (f->r) g->r = fine_form(r, f->r);
    if (f->b.par < 0 && r.chance(50)) { g->b.c = many_digits(r, f->b.c, true); if (f->a.par < 0 && r.chance(50)) g->a.c = std::min(g->b.c, many_digits(r, f->a.c, true)); }
    return g;
}
// a point and a sample show their own numbers and leave the display as it was
std::string print_points(Rng &r) {
    double v[3] = {r.range(-40, 40) * 0.25, r.range(-4000, 4000) * 0.125, r.range(-99, 99) * 0.5}, t[3] = {NAN, NAN, NAN};
    std::string a, b;
    { Capture k; Point(v[0], v[1]).print_point(); a = k.o.str(); }
    { Capture k; Sample(v[0], v[1], v[2]).print_sample(); b = k.o.str(); }
    if (sscanf(a.c_str(), "Time %lf Value %lf", &t[0], &t[1]) != 2 || t[0] != v[0] || t[1] != v[1]) return "point-shows-other-numbers";
    if (sscanf(b.c_str(), "Time %lf Value %lf Derivative %lf", &t[0], &t[1], &t[2]) != 3 || t[0] != v[0] || t[1] != v[1] || t[2] != v[2]) return "sample-shows-other-numbers";
    return "";
}
bool value_shown(const std::string &s, double v) {   // numbers are shown with six digits
    char *e;
    double x = strtod(s.c_str(), &e);
    return e != s.c_str() && !*e && std::fabs(x - v) <= 1e-5 * std::fabs(v);
}
}
MODULE(printing) {
    odd_names(r);
    Prof p;
    p.linear = r.chance(60);
    p.decimals = false;
    p.long_traces = false;
    p.cover = r.chance(80) ? 1 : 0;
    Case c = gen_case(r, p);
    if (r.chance(20)) { p.sem = r.chance(50) ? LEFT : RIGHT; c.sem = p.sem; }
    bool digits = r.chance(30);
    if (digits) c.f = fine_form(r, c.f);
    Names n;
    bool swap = c.nsig >= 2 && r.chance(40);     // declaration order is not the alphabetical one
    if (swap) std::swap(n.sig[0], n.sig[1]);
    std::string decl = decl_text(c, n), text = decl + "phi := " + form_text(c.f, n), log = text + "\n";
    bool more = r.chance(40);
    if (more) text += "\nother := not (phi and (ev_[0, 1] phi))\n";
    STLDriver d;
    if (!setup(d, c, text)) { R.fail("formula-rejected", log); return; }
    STLMonitor m = d.get_monitor(more && r.chance(50) ? "other" : "phi");
    m.set_semantics(sem_name(c.sem));
    m.set_interpol(int_name(c.linear));
    auto ev = [&](STLDriver &x, const std::string &f) { auto v = x.get_online_rob(f, c.t0); return v.size() == 3 ? R3{v[0], v[1], v[2]} : R3{NAN, NAN, NAN}; };
    std::vector<std::string> forms{"phi"};
    if (more) forms.push_back("other");
    R.evals++;
    std::unique_ptr<STLDriver> reader;           // the driver that read what was printed in the first round
    bool fine = !digits;                         // constants and parameter values are multiples of 1/4
    for (int round = 0; round < 2; round++) {
        if (r.chance(40)) { std::string bad = print_points(r); if (!bad.empty()) { R.fail(bad, log); return; } R.count("points and samples printed"); }
        std::map<std::string, R3> before;
        for (auto &f : forms) before[f] = ev(d, f);
        double mv = m.eval_rob(c.t0), ml = m.get_lower_rob(), mu = m.get_upper_rob();
        std::ostringstream all, one, mon_;
        d.print(all);
        mon_ << m;
        std::string disp, dispd;
        { Capture k; m.display_formula(); disp = k.o.str(); }
        { Capture k; d.disp(); dispd = k.o.str(); }
        if (dispd != all.str()) { R.fail("driver-display-differs-from-print", log + dispd + "----\n" + all.str()); return; }
        if (reader) {
            for (size_t i = 0; i < c.par.size(); i++) reader->set_param(n.par[i], c.par[i]);
            for (auto &f : forms) if (!same(ev(*reader, f), before[f])) { R.fail("printed-formula-means-something-else", log + "what was printed earlier, read back and given the new parameters: " + str(ev(*reader, f)) + " instead of " + str(before[f]) + "\n" + describe(c)); return; }
        }
        // a second driver reads what the first printed
        reader.reset(new STLDriver);
        STLDriver &e = *reader;
        if (!setup(e, c, decl)) { R.fail("declaration-rejected", log); return; }
        for (size_t i = 0; i < c.par.size(); i++) e.set_param(n.par[i], c.par[i]);
        for (auto &f : forms) {
            std::string b;
            if (!block(all.str(), f + ":", b)) { R.fail("formula-not-printed", log + all.str()); return; }
            one.str("");
            one << *d.formula_map[f];
            if (b != one.str() + "\n") { R.fail("printed-formula-differs", log + all.str() + "----\n" + one.str()); return; }
            if (!e.parse_string(f + " := " + b)) { R.fail("printed-formula-does-not-parse", log + b); return; }
            R3 got = ev(e, f);
            if (!same(got, before[f])) { R.fail("printed-formula-means-something-else", log + "printed as " + b + "evaluates to " + str(got) + " instead of " + str(before[f]) + "\n" + describe(c)); return; }
            R.count("formulas printed and read back");
        }
        if (!e.parse_string("mm := " + disp)) { R.fail("printed-formula-does-not-parse", log + disp); return; }
        R3 got = ev(e, "mm");
        if (!same(got, R3{mv, ml, mu})) { R.fail("printed-formula-means-something-else", log + "monitor prints " + disp + "evaluates to " + str(got) + " instead of " + str(R3{mv, ml, mu}) + "\n" + describe(c)); return; }
        // parameters with their current values
        std::string ps;
        if (!c.par.empty()) {
            std::istringstream in(all.str().substr(all.str().find("Default Parameters")));
            std::string l;
            std::map<std::string, std::string> shown;
            while (std::getline(in, l)) { size_t q = l.find('='); if (q != std::string::npos) shown[l.substr(0, q)] = l.substr(q + 1); }
            bool ok = shown.size() == c.par.size();
            for (size_t i = 0; ok && i < c.par.size(); i++) ok = shown.count(n.par[i]) && value_shown(shown[n.par[i]], c.par[i]);
            if (!ok) { R.fail("driver-shows-other-parameters", log + all.str()); return; }
        }
        std::vector<std::string> ls = split(mon_.str(), "\n");
        bool ok = ls.size() >= 3 && ls[0].compare(0, 14, "Signal Names: ") == 0 && ls[1].compare(0, 12, "Parameters: ") == 0 && ls[2] + "\n" == "Formula: " + disp;
        if (!ok) { R.fail("monitor-description-incomplete", log + mon_.str()); return; }
        std::vector<std::string> sg = split(ls[0].substr(14), ", "), pm = split(ls[1].substr(12), ", ");
        std::set<std::string> want(n.sig.begin(), n.sig.begin() + c.nsig);
        if (sg.size() != want.size() || std::set<std::string>(sg.begin(), sg.end()) != want) { R.fail("monitor-shows-other-signals", log + mon_.str()); return; }
        ok = pm.size() == c.par.size();
        for (auto &s : pm) {
            size_t q = s.find(": ");
            bool hit = false;
            for (size_t i = 0; q != std::string::npos && i < c.par.size(); i++) if (s.substr(0, q) == n.par[i]) hit = value_shown(s.substr(q + 2), c.par[i]);
            ok = ok && hit;
        }
        if (!ok) { R.fail("monitor-shows-other-parameters", log + mon_.str()); return; }
        std::string order;
        for (int i = 0; i < c.nsig; i++) order += (i ? " " : "") + n.sig[i];
        std::set<std::string> cols, wantc;
        { Capture k; m.display_signal_names(); for (auto &l : split(k.o.str(), "\n")) if (!l.empty()) cols.insert(l); }
        for (int i = 0; i < c.nsig; i++) wantc.insert(n.sig[i] + ": " + std::to_string(i + 1));
        if (cols != wantc) { R.fail("monitor-shows-other-columns", log); return; }
        if (d.get_signals_names() != order || m.get_signal_names() != order) { R.fail("signal-names-differ", log + d.get_signals_names() + "\n" + m.get_signal_names()); return; }
        // the trace, row by row
        if (r.chance(20)) {
            std::ostringstream to;
            d.print_trace(to);
            std::string tc;
            { Capture k; d.print_trace(); tc = k.o.str(); }
            auto shows = [&](const std::string &text, size_t n) {       // the first n rows, value by value
                std::vector<std::string> rows = split(text, "\n");
                while (!rows.empty() && rows.back().empty()) rows.pop_back();
                bool ok = rows.size() == std::min(n, c.tr.size());
                for (size_t i = 0; ok && i < rows.size(); i++) {
                    std::istringstream in(rows[i]);
                    std::string w;
                    size_t k = 0;
                    while (in >> w) { ok = ok && k < c.tr[i].size() && value_shown(w, c.tr[i][k]); k++; }
                    ok = ok && k == c.tr[i].size();
                }
                return ok;
            };
            bool ok = tc == to.str() && shows(tc, c.tr.size());
            std::string more;
            if (ok) {
                { Capture k; ::print(c.tr); more = k.o.str(); }
                ok = shows(more, c.tr.size());
            }
            if (ok) {
                int n = r.range(1, (int)c.tr.size() + 1);
                { Capture k; ::print(c.tr, n); more = k.o.str(); }
                ok = shows(more, n);
            }
            if (ok) {
                { Capture k; d.formula_map["phi"]->print_trace(); more = k.o.str(); }       // of the data it was just evaluated on
                ok = shows(more, c.tr.size());
            }
            tc += "----\n" + more;
            if (!ok) { R.fail("printed-trace-differs", log + to.str() + "----\n" + tc + describe(c)); return; }
            R.count("traces printed");
        }
        // printing changed nothing
        for (auto &f : forms) if (!same(ev(d, f), before[f])) { R.fail("printing-changed-an-answer", log); return; }
        double mv2 = m.eval_rob(c.t0);
        if (!same(R3{mv2, m.get_lower_rob(), m.get_upper_rob()}, R3{mv, ml, mu})) { R.fail("printing-changed-an-answer", log); return; }
        if (round) break;
        // other parameter values: the printed text refers to the parameter, not to its value at some time
        for (size_t i = 0; i < c.par.size(); i++) if (r.chance(50)) {
            std::vector<double> np = c.par;
            np[i] = i < 2 ? r.range(-20, 20) * 0.25 : r.range(0, 16) * 0.25;
            bool odd = r.chance(30);             // takes more digits than are shown
            if (odd && i < 2 && r.chance(30)) np[i] = std::ldexp(r.range(1, 1000) / 7., -r.range(15, 60));
            else if (odd) np[i] += (i < 2 ? 1 : 0.01) * (r.below(1000000) + 1) / 3e6;
            if (!valid_form(c.f, np)) continue;
            if (odd) fine = false;
            c.par = np;
            d.set_param(n.par[i], np[i]);
            m.set_param(n.par[i], np[i]);
            log += "set_param(" + n.par[i] + ", " + num(np[i]) + ")\n";
        }
        if (fine && covered(c) && c.sem == SPACE && eligible(c) && c.t0 >= c.tr[0][0]) {
            Case k = c;     // in the meaning that was written
            if (swap) for (auto &row : k.tr) (void)row;
            std::string bad = judge_covered(k, ev(d, "phi"));
            if (!bad.empty()) { R.fail(bad, log + describe(k)); return; }
        }
    }
    R.nontrivial(hash_str(log));
    if (log.size() < 400) R.sample(log);
}
