// C12/C13: the textual language. Formulas are rendered in random spellings, layouts and splits; what is evaluated must
// be the formula that was meant. Malformed texts must be refused without damage.
#include "chaos.hpp"
#include <fstream>
#include <unistd.h>
using namespace mon;
using namespace STLRom;
namespace {
typedef std::vector<std::string> Toks;
struct Render {
    Rng &r;
    Names n;
    std::map<const Form *, std::string> named;   // sub-formulas that have a name
    bool minimal;                                 // leave out parentheses where the grammar does not need them
    Render(Rng &r) : r(r) { minimal = r.chance(60); }
    const char *pick(std::initializer_list<const char *> v) { return *(v.begin() + r.below((int)v.size())); }
    std::string number(double v, bool sign_ok) {
        std::string s = num(std::fabs(v));
        bool neg = v < 0;
        size_t dot = s.find('.');
        if (dot == std::string::npos) { int k = r.below(6); if (k == 0) s += "."; else if (k == 1) s += ".0"; else if (k == 2) s = "0" + s; else if (k == 3) s += ".000"; }
        else { int k = r.below(4); if (k == 0) s += "0"; else if (k == 1 && s.substr(0, 2) == "0.") s = s.substr(1); else if (k == 2) s = "00" + s; }
        if (neg) return "-" + s;
        return sign_ok && r.chance(10) ? "+" + s : s;
    }
    void paren(Toks &o, const std::function<void()> &body, bool need) {
        int k = need ? 1 : 0;
        if (r.chance(12)) k++;
        for (int i = 0; i < k; i++) o.push_back("(");
        body();
        for (int i = 0; i < k; i++) o.push_back(")");
    }
    // precedence of an expression: 0 additive, 1 multiplicative, 2 atom
    static int eprec(const E &e) { return e->k == Expr::ADD || e->k == Expr::SUB ? 0 : e->k == Expr::MUL ? 1 : 2; }
    void expr(Toks &o, const E &e) {
        switch (e->k) {
        case Expr::SIG: o.push_back(n.sig[e->idx]); o.push_back("["); o.push_back("t"); o.push_back("]"); break;
        case Expr::CONST: o.push_back(number(e->c, true)); break;
        case Expr::PARAM: o.push_back(n.par[e->idx]); break;
        case Expr::ABS: o.push_back("abs"); o.push_back("("); expr(o, e->l); o.push_back(")"); break;
        default: {
            int p = eprec(e);
            bool lp = eprec(e->l) < p, rp = eprec(e->r) <= p;
            if (!minimal) { lp = eprec(e->l) < 2; rp = eprec(e->r) < 2; }
            paren(o, [&] { expr(o, e->l); }, lp);
            o.push_back(e->k == Expr::ADD ? "+ " : e->k == Expr::SUB ? "- " : "*");   // a sign next to a digit belongs to the number
            paren(o, [&] { expr(o, e->r); }, rp);
        } }
    }
    static bool unary(Form::K k) { return k == Form::NOT || k == Form::EV || k == Form::ALW; }
    bool ends_in_not(const F &c) { return c->k == Form::NOT || ((c->k == Form::EV || c->k == Form::ALW) && !named.count(c->l.get()) && ends_in_not(c->l)); }
    // may `c` stand as a child of `p` (side 0 left, 1 right) without parentheses, with the meaning of the tree?
    bool bare(Form::K p, const F &c, int side) {
        if (!minimal) return c->k == Form::ATOM && r.chance(30);
        if (c->k == Form::ATOM || named.count(c.get())) return true;
        switch (p) {
        case Form::NOT: return unary(c->k);
        case Form::EV: case Form::ALW: return unary(c->k);
        case Form::AND: case Form::OR: return unary(c->k) || (c->k == p && side == 0);
        case Form::IMP: return c->k == Form::EV || c->k == Form::ALW ? !ends_in_not(c) : false;   // => binds tighter than not
        default: return false;
        }
    }
    void bound(Toks &o, const Bound &b) { o.push_back(b.par >= 0 ? n.par[b.par] : number(b.c, true)); }
    void interval(Toks &o, const F &f) {
        o.push_back("[");
        bound(o, f->a);
        o.push_back(r.chance(80) ? "," : " ");
        bound(o, f->b);
        o.push_back("]");
    }
    void form(Toks &o, const F &f, bool root = false) {
        if (!root) { auto it = named.find(f.get()); if (it != named.end()) { o.push_back(it->second); return; } }
        auto child = [&](const F &c, int side) { paren(o, [&] { form(o, c); }, !bare(f->k, c, side)); };
        switch (f->k) {
        case Form::ATOM: expr(o, f->el); o.push_back(f->lt ? pick({"<", "<="}) : pick({">", ">="})); expr(o, f->er); break;
        case Form::NOT: o.push_back(pick({"not", "!"})); child(f->l, 1); break;
        case Form::AND: child(f->l, 0); o.push_back(pick({"and", "&"})); child(f->r, 1); break;
        case Form::OR: child(f->l, 0); o.push_back(pick({"or", "|"})); child(f->r, 1); break;
        case Form::IMP: child(f->l, 0); o.push_back(pick({"=>", "->"})); child(f->r, 1); break;
        case Form::EV: o.push_back(pick({"ev_", "ev", "F", "F_", "<>", "<>_"})); interval(o, f); child(f->l, 1); break;
        case Form::ALW: o.push_back(pick({"alw_", "alw", "G", "G_", "[]", "[]_"})); interval(o, f); child(f->l, 1); break;
        case Form::UNTIL: child(f->l, 0); o.push_back(pick({"until_", "until", "U", "U_"})); interval(o, f); child(f->r, 1); break;
        }
    }
    static bool wordy(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
    std::string layout(const Toks &t) {
        std::string s;
        int sp = r.below(3);      // 0 dense, 1 spaced, 2 wild
        for (size_t i = 0; i < t.size(); i++) {
            const std::string &k = t[i];
            if (!s.empty()) {
                char a = s.back(), b = k[0];
                bool must = (wordy(a) && wordy(b)) || (wordy(a) && (b == '+' || b == '-') && k.size() > 1 && isdigit((unsigned char)k.back())) || (a == '-' && b == '>') || (a == '<' && (b == '>' || b == '=')) ||
                            (b == '_') || (a == ':' && b == '=') || (a == ']' && k == "_");
                if (k == "-" || k == "+") must = true;
                // [] and <> followed by _ or joined from pieces would be other tokens
                if (a == '[' && b == ']') must = true;
                if ((a == '<' || a == '>' || a == '=') && (b == '=' || b == '>')) must = true;
                if (sp == 1 || must || (sp == 2 && r.chance(60))) gap(s, sp == 2);
            }
            s += k;
        }
        return s;
    }
    void gap(std::string &s, bool wild) {
        if (!wild) { s += " "; return; }
        int k = r.below(8);
        if (k == 0) s += "\n";
        else if (k == 1) s += "\t";
        else if (k == 2) s += "   ";
        else if (k == 3) s += "\r\n";
        else if (k == 4) s += std::string(" ") + pick({"# a comment, with ( [ ] := and ev_[0,1]\n", "#\n", "# \"quoted\" \t x[t] > \n", "#### !\n"});
        else s += " ";
    }
};
static const char *RESERVED[] = {"F", "F_", "ev", "ev_", "G", "G_", "alw", "alw_", "U", "U_", "until", "until_", "and", "or", "not", "true", "false", "t", "abs", "param", "test", "signal"};
std::string fresh_name(Rng &r, std::set<std::string> &used) {
    static const char *A[] = {"x", "y", "speed", "RPM", "t1", "tt", "ev1", "evx", "F1", "Gx", "U2", "untilx", "notx", "and_", "orx", "tst", "signals", "params", "absx", "trueX", "a_b", "Z9", "alwX", "T", "phi", "mu", "q", "r_", "ANDY", "Not", "False", "e", "E1"};
    for (;;) {
        std::string s = A[r.below((int)(sizeof A / sizeof *A))];
        if (r.chance(40)) s += (char)('a' + r.below(26));
        if (r.chance(30)) s += std::to_string(r.below(30));
        bool res = false;
        for (auto k : RESERVED) if (s == k) res = true;
        if (!res && used.insert(s).second) return s;
    }
}
void collect(const F &f, std::vector<F> &v) { v.push_back(f); if (f->l) collect(f->l, v); if (f->r) collect(f->r, v); }
std::string scratch(const char *n) { const char *d = getenv("MON_DIR"); return std::string(d ? d : "/tmp") + "/" + n; }
}
static bool near1(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
static bool near3(const R3 &a, const R3 &b) { return near1(a.r, b.r) && near1(a.l, b.l) && near1(a.u, b.u); }
// a number is the value its digits say, to the last bit that matters, wherever it stands
static std::string digits(Rng &r, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('0' + r.below(10)); return s; }
static std::string spelled(Rng &r, bool neg, int most) {
    static const int il[] = {0, 1, 1, 2, 3, 6, 9};
    std::string s = neg ? (r.chance(50) ? "-" : r.chance(20) ? "+" : "") : "";
    int ni = il[r.below(most)], nf = r.chance(20) ? 0 : r.range(1, r.chance(20) ? 17 : 7);
    if (!ni && !nf) ni = 1;
    s += digits(r, ni);
    if (nf || r.chance(30)) s += "." + digits(r, nf);
    return s;
}
static void numbers(Run &R, Rng &r) {
    std::string c = spelled(r, true, 7), k = spelled(r, true, 5), a = spelled(r, false, 5), b = spelled(r, false, 5);   // robustness stays below BigM
    double vc = strtod(c.c_str(), nullptr), vk = strtod(k.c_str(), nullptr), va = strtod(a.c_str(), nullptr), vb = strtod(b.c_str(), nullptr);
    if (va > vb) { std::swap(va, vb); std::swap(a, b); }
    std::string text = "signal x\nparam p = " + c + "\nf1 := x[t] > " + k + "\nf2 := ev_[" + a + ", " + b + "] (x[t] > 0)\nf3 := alw_[" + a + ", " + b + "] (x[t] > 0)\n";
    STLDriver d;
    if (!d.parse_string(text)) { R.fail("number-rejected", text); return; }
    d.set_interpol("LINEAR");
    d.set_semantics("SPACE");
    d.add_sample({0., 0.});
    d.add_sample({vb + 1, vb + 1});
    auto f1 = d.get_online_rob("f1", 0.), f2 = d.get_online_rob("f2", 0.), f3 = d.get_online_rob("f3", 0.);
    auto off = [](double x, double y, double s) { return !(std::fabs(x - y) <= 1e-14 * (1 + s)); };
    if (f1.empty() || f2.empty() || f3.empty() || off(d.get_param("p"), vc, std::fabs(vc)) || off(f1[0], -vk, std::fabs(vk)) || off(f2[0], vb, vb) || off(f3[0], va, vb))
        R.fail("number-differs", text + "p = " + dnum(d.get_param("p")) + (f1.empty() || f2.empty() || f3.empty() ? "" : ", f1 = " + dnum(f1[0]) + ", f2 = " + dnum(f2[0]) + ", f3 = " + dnum(f3[0])));
    R.count("spelled numbers", 4);
}
// a signal is the column of its place in the declarations, however many there are
static void columns(Run &R, Rng &r) {
    static const int NS[] = {1, 5, 9, 10, 11, 17, 64, 128, 130, 257, 1000};
    int n = r.chance(2) ? 33000 : r.chance(30) ? r.range(1, 40) : NS[r.below(11)], a = r.below(n), b = r.below(n);
    if (r.chance(30)) a = n - 1;
    std::string text, pre = r.chance(50) ? "s" : "Sig_";
    STLDriver d;
    bool ok = true;
    for (int i = 0; i < n; i++) {
        bool fresh = i && r.chance(n > 100 ? 1 : 8);
        if (fresh) { ok = ok && d.parse_string(text); text = ""; }      // the next text declares more
        text += (text.empty() ? "signal " : ", ") + pre + std::to_string(i);
    }
    text += "\nphi := " + pre + std::to_string(a) + "[t] - " + pre + std::to_string(b) + "[t] > 0.5\n";
    if (!ok || !d.parse_string(text)) { R.fail("signals-rejected", std::to_string(n) + " signals, " + text.substr(0, 400)); return; }
    std::vector<double> row(n + 1);
    for (int i = 1; i <= n; i++) row[i] = (double)((i * 7919LL) % 9001);
    double x = (double)(((a + 1) * 7919LL) % 9001), y = (double)(((b + 1) * 7919LL) % 9001);
    d.add_sample(row);
    auto v = d.get_online_rob("phi", 0.);
    STLMonitor m = d.get_monitor("phi");
    double w = m.eval_rob(0.);
    if (v.empty() || std::fabs(v[0] - (x - y - 0.5)) > 1e-9 || std::fabs(w - v[0]) > 1e-9) R.fail("signal-is-another-column", std::to_string(n) + " signals, " + text.substr(text.rfind("phi")) + " = " + (v.empty() ? "nothing" : dnum(v[0])) + ", " + dnum(w) + ", expected " + dnum(x - y - 0.5));
    R.count("signals declared", n);
}
// a name given to a second formula means that one, if the text is accepted at all
static void redefined(Run &R, Rng &r) {
    GenOpt o;
    o.nsig = 1; o.npar = 0; o.maxb = 2;
    std::vector<double> par;
    F a = gen_form(r, o, par, r.range(0, 2)), b = gen_form(r, o, par, r.range(0, 2));
    std::string head = "signal " + Names().sig[0] + "\n", ta = "name := " + form_text(a, Names()) + "\n", tb = "name := " + form_text(b, Names()) + "\n";
    auto tr = gen_trace(r, o, 0, 12, 12);
    auto val = [&](STLDriver &d) { auto v = d.get_online_rob("name", 0.); return v.size() == 3 ? R3{v[0], v[1], v[2]} : R3{NAN, NAN, NAN}; };
    STLDriver d, da, db;
    bool two = r.chance(30), ok = two ? d.parse_string(head + ta) && d.parse_string(tb) : d.parse_string(head + ta + tb);
    if (!da.parse_string(head + ta) || !db.parse_string(head + tb)) { R.fail("formula-rejected", head + ta + tb); return; }
    for (auto &row : tr) { if (d.signal_map.size() == 1) d.add_sample(row); da.add_sample(row); db.add_sample(row); }
    R3 got = val(d), va = val(da), vb = val(db);
    if (ok ? !near3(got, vb) : std::isfinite(got.r) && !near3(got, va) && !near3(got, vb)) R.fail("formula-differs", head + ta + (two ? "(next text) " : "") + tb + "evaluates to " + str(got) + " instead of " + str(ok ? vb : va));
    R.count(ok ? "names given again" : "names given again, refused");
}
MODULE(parse_fidelity) {
    numbers(R, r);
    if (r.chance(4)) redefined(R, r);
    if (r.chance(5)) columns(R, r);
    Prof p;
    p.linear = r.chance(50);
    p.decimals = false;
    p.long_traces = false;
    Case c = gen_case(r, p);
    if (!eligible(c)) { R.skipped++; return; }
    Render w(r);
    std::set<std::string> used;
    for (int i = 0; i < 3; i++) w.n.sig[i] = fresh_name(r, used);
    for (int i = 0; i < 4; i++) w.n.par[i] = fresh_name(r, used);
    // names for some sub-formulas
    std::vector<F> subs;
    collect(c.f, subs);
    std::vector<std::pair<std::string, F>> defs;
    for (size_t i = subs.size(); i-- > 1;) if (r.chance(25) && defs.size() < 4) {   // post-order enough: inner ones come later in pre-order
        bool dup = false;
        for (auto &d : defs) if (d.second == subs[i]) dup = true;
        if (!dup) defs.push_back({fresh_name(r, used), subs[i]});
    }
    defs.push_back({fresh_name(r, used), c.f});
    // declarations, split at random over statements
    std::vector<std::string> stm;
    Toks t{"signal"};
    for (int i = 0; i < c.nsig; i++) { if (i) t.push_back(","); t.push_back(w.n.sig[i]); }
    stm.push_back(w.layout(t));
    t.clear();
    std::vector<int> later;
    for (size_t i = 0; i < c.par.size(); i++) {
        if (t.empty()) t.push_back("param"); else t.push_back(",");
        bool again = r.chance(8);              // a later declaration counts, see below
        t.push_back(w.n.par[i]); t.push_back("="); t.push_back(w.number(again ? r.range(0, 9) * 0.5 : c.par[i], true));
        if (again) later.push_back((int)i);
        if (r.chance(30) || i + 1 == c.par.size()) { stm.push_back(w.layout(t)); t.clear(); }
    }
    for (auto &d : defs) {
        t.clear();
        t.push_back(d.first); t.push_back(":=");
        w.form(t, d.second, true);
        stm.push_back(w.layout(t));
        if (r.chance(75)) w.named[d.second.get()] = d.first;
    }
    while (!later.empty()) {               // parameters declared again, anywhere behind
        t.clear();
        t.push_back("param");
        for (bool first = true; !later.empty() && (first || r.chance(40)); first = false) {
            if (!first) t.push_back(",");
            t.push_back(w.n.par[later.back()]); t.push_back("="); t.push_back(w.number(c.par[later.back()], true));
            later.pop_back();
        }
        size_t npar = 0;
        while (npar < stm.size() - defs.size()) npar++;
        stm.insert(stm.begin() + npar + r.below((int)defs.size() + 1), w.layout(t));
        R.count("parameters declared again");
    }
    // group the statements into texts, parse each by one of the entry points
    STLDriver d;
    std::string all;
    size_t i = 0;
    while (i < stm.size()) {
        std::string text;
        if (r.chance(20)) text += r.chance(50) ? "# leading comment\n" : "\n \n";
        if (i && r.chance(6)) {            // a signal named again keeps its column
            t = {"signal", w.n.sig[r.below(c.nsig)]};
            text += w.layout(t) + "\n";
            R.count("signals declared again");
        }
        do { text += stm[i++]; text += r.chance(70) ? "\n" : " "; } while (i < stm.size() && r.chance(70));
        if (r.chance(20)) text += "# trailing comment\n";
        while (!text.empty() && r.chance(30) && isspace((unsigned char)text.back())) text.pop_back();
        if (text.rfind('#') != std::string::npos && text.find('\n', text.rfind('#')) == std::string::npos) {
            if (r.chance(50)) text += "\n"; else R.count("comment ends the text");
        }
        bool ok;
        int how = r.below(3);
        if (how == 0) ok = d.parse_string(text);
        else if (how == 1) { std::istringstream is(text); ok = d.parse_stream(is); }
        else { std::string fn = scratch("spec.stl"); { std::ofstream o(fn, std::ios::binary); o << text; } ok = d.parse_file(fn); }
        all += "---- text\n" + text;
        R.count(how == 0 ? "parse_string" : how == 1 ? "parse_stream" : "parse_file");
        if (!ok) { R.fail("valid-text-rejected", all); return; }
    }
    d.set_interpol(int_name(c.linear));
    for (auto &row : c.tr) d.add_sample(row);
    R.evals++;
    R.count("formulas", (long)defs.size());
    R.nontrivial(hash_str(all));
    if (all.size() < 500) R.sample(all);
    for (auto &df : defs) {
        Case k = c;
        k.f = df.second;
        auto v = d.get_online_rob(df.first, c.t0);
        if (v.size() != 3) { R.fail("formula-lost", all + "formula " + df.first); return; }
        R3 o{v[0], v[1], v[2]}, canon;
        std::string bad = judge_covered(k, o);
        if (!bad.empty()) { R.fail(bad, all + "---- formula " + df.first + " evaluates to " + str(o) + "\n" + ref_str(k) + "\nmeant: " + describe(k)); return; }
        // a chain a or b or c may associate either way: equal up to rounding of crossing times
        if (!eval_driver(k, canon) || !near3(o, canon)) { R.fail("differs-from-canonical-spelling", all + "---- formula " + df.first + " evaluates to " + str(o) + ", canonical " + str(canon) + "\nmeant: " + describe(k)); return; }
    }
    // declared values and names
    for (size_t q = 0; q < c.par.size(); q++) if (d.get_param(w.n.par[q]) != c.par[q]) R.fail("parameter-value-differs", all);
    std::string sn;
    for (int q = 0; q < c.nsig; q++) sn += (q ? " " : "") + w.n.sig[q];
    if (d.get_signals_names() != sn) R.fail("signal-names-differ", all + d.get_signals_names());
}

// ---------------------------------------------------------------- malformed texts
namespace {
// one token of a well-formed definition removed, doubled or replaced in a way no reading of the language accepts
bool is_cmp(const std::string &k) { return k == "<" || k == "<=" || k == ">" || k == ">="; }
bool is_bin(const std::string &k) { return k == "and" || k == "&" || k == "or" || k == "|" || k == "=>" || k == "->" || k == "until" || k == "until_" || k == "U" || k == "U_"; }
bool is_temporal(const std::string &k) { for (auto w : {"ev_", "ev", "F", "F_", "<>", "<>_", "alw_", "alw", "G", "G_", "[]", "[]_"}) if (k == w) return true; return false; }
std::string token_bad(Rng &r, const Case &c, std::string &why) {
    Render w(r);
    Toks t;
    w.form(t, c.f, true);
    std::vector<int> at;
    auto find = [&](std::function<bool(const std::string &)> ok) { at.clear(); for (size_t i = 0; i < t.size(); i++) if (ok(t[i])) at.push_back((int)i); return !at.empty(); };
    auto one = [&] { return at[r.below((int)at.size())]; };
    auto name = [&](const std::string &k) { for (auto &s : w.n.sig) if (k == s) return 1; for (auto &p : w.n.par) if (k == p) return 2; return 0; };
    int i;
    for (;;) switch (r.below(13)) {
    case 0: if (!find([](const std::string &k) { return k == "(" || k == ")" || k == "[" || k == "]"; })) break; i = one(); why = "token removed: bracket"; t.erase(t.begin() + i); goto done;
    case 1: if (!find(is_cmp)) break; i = one(); why = "token removed: comparison"; t.erase(t.begin() + i); goto done;
    case 2: if (!find(is_bin)) break; i = one(); why = "token removed: binary operator"; t.erase(t.begin() + i); goto done;
    case 3: if (!find([](const std::string &k) { return k == "t"; })) break; i = one(); why = "token removed: time"; t.erase(t.begin() + i); goto done;
    case 4: if (!find(is_cmp)) break; i = one(); why = "token doubled: comparison"; t.insert(t.begin() + i, t[i]); goto done;
    case 5: if (!find(is_bin)) break; i = one(); why = "token doubled: binary operator"; t.insert(t.begin() + i, t[i]); goto done;
    case 6: if (!find([](const std::string &k) { return k == "(" || k == ")" || k == "[" || k == "]"; })) break; i = one(); why = "token doubled: bracket"; t.insert(t.begin() + i, t[i]); goto done;
    case 7: if (!find([&](const std::string &k) { return name(k) == 1; })) break; i = one(); why = "unknown signal inside"; t[i] = "nosuchsignal"; goto done;
    case 8: if (!find([&](const std::string &k) { return name(k) == 2; })) break; i = one(); why = "unknown parameter inside"; t[i] = "nosuchparam"; goto done;
    case 9: if (!find(is_temporal)) break; i = one(); why = "interval removed"; { size_t j = i + 1; while (j < t.size() && t[j] != "]") j++; t.erase(t.begin() + i + 1, t.begin() + j + 1); } goto done;
    case 10: if (!find(is_temporal)) break; i = one(); why = "temporal operator removed"; t.erase(t.begin() + i); goto done;
    case 11: if (!find([&](const std::string &k) { return isdigit((unsigned char)k.back()) || k.back() == '.'; })) break; i = one(); why = "ill-formed number"; { static const char *badnum[] = {"1..2", "0x1F", "--3", "1.2.3", "1,,2", ".", "3_"}; t[i] = badnum[r.below(7)]; } goto done;
    case 12: i = r.below((int)t.size() + 1); why = "keyword inside"; { static const char *kw[] = {"param", "signal", "test", ":=", "{", "}", "=", "true", "false", "\"s\""}; t.insert(t.begin() + i, kw[r.below(10)]); } goto done;
    }
done:
    t.insert(t.begin(), ":=");
    t.insert(t.begin(), "bad");
    return w.layout(t);
}
// a text that no reading of the language accepts
std::string surely_bad(Rng &r, const Case &c, std::string &why) {
    if (r.chance(55)) return token_bad(r, c, why);
    Names n;
    std::string f = form_text(c.f, n), g;
    switch (r.below(16)) {
    case 0: why = "unbalanced parenthesis"; return "bad := " + f + ")";
    case 1: why = "unbalanced parenthesis"; return "bad := (" + f;
    case 2: why = "missing operand"; return "bad := " + f + " and ";
    case 3: why = "missing operand"; return "bad := or " + f;
    case 4: why = "unknown name"; return "bad := " + f + " and nosuchformula";
    case 5: why = "unknown signal"; return "bad := nosuchsignal[t] > 0";
    case 6: why = "unknown parameter"; return "bad := x[t] > nosuchparam";
    case 7: why = "interval missing"; return "bad := ev_ " + f;
    case 8: why = "interval incomplete"; return "bad := ev_[0, ] " + f;
    case 9: why = "interval not closed"; return "bad := alw_[0, 1 " + f;
    case 10: why = "no comparison"; return "bad := x[t] + 1";
    case 11: why = "two comparisons"; return "bad := x[t] > 0 > 1";
    case 12: why = "no name"; return ":= " + f;
    case 13: why = "stray character"; g = f; if (r.chance(50)) g.insert(r.below((int)g.size() + 1), 1, "@$%~`?;'\\^"[r.below(10)]);
        else { why = "stray byte"; g.insert(r.below((int)g.size() + 1), 1, (char)(r.chance(20) ? 0 : r.range(128, 255))); }
        return "bad := " + g;
    case 14: why = "no assignment"; return "bad " + f;
    default: why = "signal without time"; return "bad := x > 0";
    }
}
}
MODULE(malformed) {
    Prof p;
    p.decimals = false;
    p.long_traces = false;
    p.max_depth = 2;
    Case c = gen_case(r, p);
    std::string log = case_text(c) + "\n";
    STLDriver d;
    R3 before;
    if (!setup(d, c, case_text(c))) { R.fail("formula-rejected", log); return; }
    auto ev = [&](STLDriver &x, const std::string &f) { auto v = x.get_online_rob(f, c.t0); return v.size() == 3 ? R3{v[0], v[1], v[2]} : R3{NAN, NAN, NAN}; };
    before = ev(d, "phi");
    // tests that wait in the queue while texts are refused
    std::string tests, report;
    size_t waiting = 0;
    if (r.chance(35)) {
        waiting = r.range(1, 2);
        int id = 0;
        for (size_t k = 0; k < waiting; k++) {
            tests += "test wait" + std::to_string(k) + ": \"env\", 10, true {\n";
            for (int n = r.range(1, 2); n > 0; n--) tests += "  W" + std::to_string(id++) + " { " + form_text(c.f, Names()) + ", \"yes\", \"no\", " + (r.chance(50) ? "true" : "false") + " }\n";
            tests += "}\n";
        }
        STLDriver fresh(d);
        if (!fresh.parse_string(tests)) { R.fail("test-rejected", log + tests); return; }
        for (size_t k = 0; k < waiting; k++) fresh.run_tests();
        report = fresh.report;
        if (!d.parse_string(tests)) { R.fail("test-rejected", log + tests); return; }
        log += tests;
    }
    const std::string sem0 = d.get_semantics(), itp0 = d.get_interpol();
    bool all_sure = true;
    int rounds = r.range(1, 4);
    bool refused = false;
    for (int k = 0; k < rounds; k++) {
        std::string why, text;
        bool sure = r.chance(60), alone = false;
        all_sure = all_sure && sure;
        auto data0 = d.data;
        auto par0 = d.param_map;
        auto sig0 = d.signal_map;
        std::set<std::string> form0;
        for (auto &f : d.formula_map) if (f.second) form0.insert(f.first);
        if (sure) {
            text = surely_bad(r, c, why);
            alone = !r.chance(30);
            if (!alone) text = (r.chance(50) ? "param fresh" + std::to_string(k) + " = 3\n" : "fine" + std::to_string(k) + " := " + form_text(c.f, Names()) + "\n") + text;
        }
        else {
            std::string base;
            switch (r.below(4)) {
            case 0: base = "psi" + std::to_string(k) + " := " + form_text(c.f, Names()); break;
            case 1: base = "psi" + std::to_string(k) + " := phi and (not phi)\nchi" + std::to_string(k) + " := x[t] > 0"; break;
            case 2: base = "test tr" + std::to_string(k) + ": \"env\", 10, true { T" + std::to_string(k) + " (p=1) { " + form_text(c.f, Names()) + ", \"yes\", \"no\", false } }"; break;
            default: base = "param p=1, n" + std::to_string(k) + "=2.5\npsi" + std::to_string(k) + " := x[t] > p"; break;
            }
            text = mutate_text(r, base);
        }
        bool viafile = r.chance(20), ok;
        if (viafile) { std::string fn = scratch("bad.stl"); { std::ofstream o(fn, std::ios::binary); o << text; } ok = d.parse_file(fn); }
        else ok = d.parse_string(text);
        log += "---- text (" + std::string(sure ? why : "mutated") + ") " + (ok ? "accepted" : "refused") + "\n" + text + "\n";
        R.evals++;
        R.count(sure ? "ill-formed: " + why : ok ? "mutated, accepted" : "mutated, refused");
        if (sure && ok) { R.fail("malformed-text-accepted", log); return; }
        if (!ok) {
            refused = true;
            // what was there before is still there; a text that is one wrong definition declares nothing either
            if (sure) {
                if (d.data != data0) { R.fail("data-changed-by-refused-text", log); return; }
                for (auto &p : par0) { auto it = d.param_map.find(p.first); if (it == d.param_map.end() || it->second != p.second) { R.fail("parameter-changed-by-refused-text", log + p.first); return; } }
                for (auto &p : sig0) { auto it = d.signal_map.find(p.first); if (it == d.signal_map.end() || it->second != p.second) { R.fail("signal-changed-by-refused-text", log + p.first); return; } }
                for (auto &f : form0) { auto it = d.formula_map.find(f); if (it == d.formula_map.end() || !it->second) { R.fail("formula-lost-by-refused-text", log + f); return; } }
                if (d.get_semantics() != sem0 || d.get_interpol() != itp0) { R.fail("settings-changed-by-refused-text", log); return; }
                if (d.trace_test_queue.size() < waiting) { R.fail("test-lost-by-refused-text", log); return; }
                if (!d.report.empty() || !d.test_log.empty() || d.nb_test_pos) { R.fail("tests-run-by-refused-text", log); return; }
                if (alone && d.param_map.size() != par0.size()) { R.fail("parameter-added-by-refused-text", log); return; }
                if (alone && d.signal_map != sig0) { R.fail("signal-added-by-refused-text", log); return; }
            }
            if (sure) {
                R3 now = ev(d, "phi");
                if (!same(now, before) && !(std::isnan(now.r) && std::isnan(before.r))) { R.fail("earlier-formula-changed", log + "was " + str(before) + " now " + str(now)); return; }
            }
        }
        if (!sure) {     // the text may legitimately have redefined a parameter: evaluate in whatever state, then restore
            for (auto &f : std::map<std::string, transducer *>(d.formula_map)) if (f.second) d.get_online_rob(f.first, c.t0);
            for (size_t i = 0; i < c.par.size(); i++) d.set_param(Names().par[i], c.par[i]);
        }
        R3 now = ev(d, "phi");
        // mutated texts may shadow the name phi (immediate redefinition) only by assigning to it
        if (!same(now, before) && !(std::isnan(now.r) && std::isnan(before.r)) && text.find("phi") == std::string::npos) { R.fail("earlier-formula-changed", log + "was " + str(before) + " now " + str(now)); return; }
        if (!same(now, before)) return;
        // still usable: a new definition works and means the same
        std::string nm = "again" + std::to_string(k);
        bool taken = d.formula_map.count(nm) || d.param_map.count(nm);
        if (!taken) {
            std::string t2 = nm + " := " + form_text(c.f, Names());
            bool names_ok = !d.formula_map.count("x") && !d.formula_map.count("y") && !d.formula_map.count("z") && !d.param_map.count("x") && !d.param_map.count("y") && !d.param_map.count("z");
            for (int i = 0; i < 4; i++) if (d.formula_map.count(Names().par[i])) names_ok = false;
            if (!names_ok) return;
            if (!d.parse_string(t2)) { R.fail("unusable-after-refusal", log + t2); return; }
            now = ev(d, nm);
            if (!same(now, before) && !(std::isnan(now.r) && std::isnan(before.r))) { R.fail("wrong-after-refusal", log + t2 + "\nwas " + str(before) + " now " + str(now)); return; }
        }
    }
    if (d.parse_file(scratch("no/such/file.stl"))) R.fail("missing-file-accepted", log);
    if (waiting && all_sure) {
        for (size_t k = 0; k < waiting; k++) d.run_tests();
        if (d.report != report) R.fail("waiting-test-changed", log + "report\n" + d.report + "before\n" + report);
        R.count("tests that waited during refusals");
    }
    if (refused) R.nontrivial(hash_str(log));
    if (refused && log.size() < 500) R.sample(log);
}
