// Arithmetic meaning of difference terms: expression trees through the real parser, compared with exact evaluation.
#include "e2e.hh"
#include <cmath>

namespace e2e {

using namespace core;

namespace {

using Int = __int128;
constexpr Int IMAX = INT_MAX;

struct Node;
using N = std::shared_ptr<Node const>;
struct Node {
    char op{0};   // n number, s number string, v variable, _ unary minus, or a binary operator
    long num{0};  // number or index of variable
    std::string str;
    N l, r;
};
N num(long v) { auto n = std::make_shared<Node>(); n->op = 'n'; n->num = v; return n; }
N strn(std::string s) { auto n = std::make_shared<Node>(); n->op = 's'; n->str = std::move(s); return n; }
N var(int i) { auto n = std::make_shared<Node>(); n->op = 'v'; n->num = i; return n; }
N neg(N a) { auto n = std::make_shared<Node>(); n->op = '_'; n->l = std::move(a); return n; }
N bin(char op, N a, N b) { auto n = std::make_shared<Node>(); n->op = op; n->l = std::move(a); n->r = std::move(b); return n; }

int prec(Node const &n) {
    switch (n.op) {
        case '+': case '-': return 1;
        case '*': case '/': return 2;
        case '_': return 3;
        default: return 4;
    }
}
//! style 0: minimal parentheses, 1: all parentheses, 2: minimal with spaces
std::string render(Node const &n, int style, std::string const &suffix) {
    auto wrap = [&](Node const &c, bool p) {
        auto s = render(c, style, suffix);
        return p || (style == 1 && prec(c) < 4) ? "(" + s + ")" : s;
    };
    switch (n.op) {
        case 'n': return std::to_string(n.num);
        case 's': return "\"" + n.str + "\"";
        case 'v': return std::string(1, "uvt"[n.num]) + suffix;
        case '_': return "-" + wrap(*n.l, prec(*n.l) <= 3);
        default: {
            auto l = wrap(*n.l, prec(*n.l) < prec(n));
            auto r = wrap(*n.r, prec(*n.r) <= prec(n));
            std::string o(1, n.op);
            if (style == 2 || r[0] == '-') { o = " " + o + " "; }
            return l + o + r;
        }
    }
}

//! Linear form with exact integers (or doubles); ok: must be accepted, bad: must be rejected, else either.
template <class T> struct Lin {
    T co[3] = {0, 0, 0};
    T c{0};
    T mag{0};          // sum of the absolute values of all summands after multiplying out
    bool var{false};   // variables occur syntactically
    bool bad{false};   // must be rejected
    bool maybe{false}; // may be rejected
};
template <class T> bool is_const(Lin<T> const &l) { return l.co[0] == 0 && l.co[1] == 0 && l.co[2] == 0; }

template <class T> Lin<T> eval(Node const &n) {
    Lin<T> r;
    if (n.op == 'n') { r.c = n.num; r.mag = std::abs(n.num); }
    else if (n.op == 's') { r.c = static_cast<T>(std::strtold(n.str.c_str(), nullptr)); r.mag = r.c < 0 ? -r.c : r.c; }
    else if (n.op == 'v') { r.co[n.num] = 1; r.var = true; r.mag = 1; }
    else if (n.op == '_') {
        r = eval<T>(*n.l);
        for (auto &x : r.co) { x = -x; }
        r.c = -r.c; // mag is unchanged
    } else {
        auto a = eval<T>(*n.l), b = eval<T>(*n.r);
        r.bad = a.bad || b.bad;
        r.maybe = a.maybe || b.maybe;
        r.var = a.var || b.var;
        r.mag = n.op == '*' ? a.mag * b.mag : a.mag + b.mag;
        if (n.op == '+' || n.op == '-') {
            int s = n.op == '+' ? 1 : -1;
            for (int i = 0; i < 3; ++i) { r.co[i] = a.co[i] + s * b.co[i]; }
            r.c = a.c + s * b.c;
        } else if (n.op == '*') {
            if (!is_const(a) && !is_const(b)) { r.bad = true; }
            if (a.var && b.var) { r.maybe = true; } // variables on both sides, one of them cancels out
            for (int i = 0; i < 3; ++i) { r.co[i] = a.co[i] * b.c + b.co[i] * a.c; }
            r.c = a.c * b.c;
        } else {
            if (!is_const(a) || !is_const(b)) { r.bad = true; }
            if (a.var || b.var) { r.maybe = true; }
            if (b.c == 0) { r.bad = true; }
            else if (!r.bad) { r.c = a.c / b.c; }
            if (a.mag + b.mag <= IMAX) { r.mag = r.c < 0 ? -r.c : r.c; }
        }
    }
    if constexpr (std::is_same_v<T, Int>) {
        auto out = [](Int x) { return x > IMAX || x < -IMAX; };
        // intermediate results may be rejected
        if (out(r.mag)) { r.maybe = true; }
        auto lim = static_cast<Int>(1) << 60; // cannot get back into the range with the few operators used
        if (r.mag > lim) { r.mag = lim; }
        if (r.c > lim || r.c < -lim) { r.bad = true; r.c = 0; }
    }
    return r;
}

struct Outcome {
    bool error{false};
    std::string msg;
    std::vector<Answer> answers;
};
Outcome exec(std::string const &prog, bool rdl, Results &res, Config extra = {}) {
    Outcome o;
    Config c{{"compute-components", "no"}};
    if (rdl) { c.emplace_back("rdl", "yes"); }
    for (auto &e : extra) { c.push_back(e); }
    try {
        Session s(c, {"0"});
        s.check_api = !rdl;
        s.add("#program base.\n" + prog);
        s.ground("base");
        o.answers = s.solve();
    } catch (Violation const &) {
        throw;
    } catch (std::exception const &e) {
        o.error = true;
        o.msg = e.what();
    }
    res.add("programs");
    res.add("transitions");
    return o;
}

//! A constraint L op R together with what is expected of it.
struct Item {
    std::string l, r;       // sides with suffix #
    int expect{0};          // 0: value of obs, 1: error, 2: either
    std::string pin, obs;   // variable fixed to 0, observed variable
    double value{0};
    bool rdl{false};
    std::string text(std::string const &suffix) const {
        auto sub = [&](std::string s) {
            for (size_t p; (p = s.find('#')) != std::string::npos;) { s.replace(p, 1, suffix); }
            return s;
        };
        std::string t = "&diff{" + sub(l) + "} <= " + sub(r) + ".\n";
        if (!obs.empty()) { t += "&diff{low - " + sub(obs) + "} <= 0.\n"; }
        if (!pin.empty()) { t += "&diff{" + sub(pin) + "} = 0.\n"; }
        return t;
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        o << "VAL#" << l << "#" << r << "#" << expect << "#" << pin << "#" << obs << "#" << value << "#" << rdl;
        auto s = o.str();
        for (auto &c : s) { if (c == '\n') { c = ' '; } }
        return s;
    }
};
// '#' separates the fields of a replay string, '@' stands for the suffix there
std::string at(std::string s) { for (auto &c : s) { if (c == '#') { c = '@'; } } return s; }
std::string item_str(Item i) { i.l = at(i.l); i.r = at(i.r); i.pin = at(i.pin); i.obs = at(i.obs); return i.str(); }
std::string const LOW = "&diff{low} <= -1000000.\n";

[[noreturn]] void fail(std::string const &kind, std::string const &msg, std::string const &replay) {
    Violation v(kind, msg);
    v.replay = "EXPR " + replay;
    throw v;
}

double value_of(Outcome const &o, std::string name) {
    if (o.answers.size() != 1) { return NAN; }
    auto it = o.answers[0].values.find(name);
    return it == o.answers[0].values.end() ? NAN : it->second;
}

bool close(double a, double b, bool rdl) { return rdl ? std::fabs(a - b) <= 1e-8 : a == b; }

void run_item(Item const &i, Results &res) {
    auto str = item_str(i);
    set_current("EXPR " + str);
    auto o = exec(LOW + i.text("1"), i.rdl, res);
    if (o.error) {
        if (i.expect == 0) { fail("rejected", "constraint " + i.text("1") + " was rejected: " + o.msg, str); }
        return;
    }
    if (i.expect == 1) { fail("misread", "constraint " + i.text("1") + " was accepted but has to be rejected", str); }
    auto name = i.obs;
    name.replace(name.find('#'), 1, "1");
    double v = value_of(o, name);
    if (!close(v, i.value, i.rdl)) {
        fail("misread", "constraint " + i.text("1") + " leads to " + show(o.answers) + ", expected value " + std::to_string(i.value) + " for " + name, str);
    }
}

//! Collects accepted constraints to evaluate many in one program.
class Batch {
  public:
    Batch(Ctx &x, bool rdl) : x{x}, rdl{rdl} {}
    void add(Item i) {
        x.res.add("states");
        if (i.expect != 0) { run_item(i, x.res); x.res.add(i.expect == 1 ? "rejected" : "either"); return; }
        x.res.add("evaluated");
        items.push_back(std::move(i));
        if (items.size() >= 50) { flush(); }
    }
    void flush() {
        if (items.empty()) { return; }
        std::string t = LOW;
        for (size_t k = 0; k < items.size(); ++k) { t += items[k].text(std::to_string(k + 1)); }
        set_current("EXPR " + item_str(items[0]));
        auto o = exec(t, rdl, x.res);
        bool ok = !o.error && o.answers.size() == 1;
        for (size_t k = 0; ok && k < items.size(); ++k) {
            auto name = items[k].obs;
            name.replace(name.find('#'), 1, std::to_string(k + 1));
            ok = close(value_of(o, name), items[k].value, rdl);
        }
        if (!ok) {
            for (auto &i : items) { run_item(i, x.res); }
            fail("misread", "a set of constraints is read differently than each of them: " + t, item_str(items[0]));
        }
        items.clear();
    }
  private:
    Ctx &x;
    bool rdl;
    std::vector<Item> items;
};

//! Turn an expression pair into an item.
template <class T> Item make_item(N const &l, N const &r, int style, bool rdl) {
    Item i;
    i.rdl = rdl;
    i.l = render(*l, style, "#");
    i.r = render(*r, style, "#");
    auto a = eval<T>(*l), b = eval<T>(*r);
    T co[3];
    T c = b.c - a.c;
    int plus = -1, minus = -1, other = 0;
    for (int k = 0; k < 3; ++k) {
        co[k] = a.co[k] - b.co[k];
        if (co[k] == 0) { continue; }
        if (co[k] == 1 && plus < 0) { plus = k; }
        else if (co[k] == -1 && minus < 0) { minus = k; }
        else { ++other; }
    }
    if (a.bad || b.bad || other > 0) { i.expect = 1; }
    else if (a.maybe || b.maybe) { i.expect = 2; }
    auto name = [](int k) { return std::string(1, "uvt"[k]) + "#"; };
    if (plus >= 0) { i.pin = name(plus); }
    if (minus >= 0) { i.obs = name(minus); }
    else {
        i.obs = "w#";
        if (i.expect != 1) { i.l = (style == 1 || prec(*l) < 1 ? "(" + i.l + ")" : i.l) + " - w#"; }
    }
    i.value = -static_cast<double>(c);
    if (std::fabs(i.value) > 900000 && i.expect == 0) { i.expect = 2; }
    if (i.expect == 2 && !(std::fabs(i.value) < 900000)) { i.expect = 1; }
    return i;
}

using Vec = std::vector<N>;
//! All trees with exactly the given number of operators.
Vec trees(int ops, Vec const &leaves, std::string const &bins, bool unary) {
    std::vector<Vec> t{leaves};
    for (int n = 1; n <= ops; ++n) {
        Vec v;
        if (unary) { for (auto &a : t[n - 1]) { if (a->op != '_') { v.push_back(neg(a)); } } }
        for (int k = 0; k < n; ++k) {
            for (auto &a : t[k]) { for (auto &b : t[n - 1 - k]) { for (char o : bins) { v.push_back(bin(o, a, b)); } } }
        }
        t.push_back(std::move(v));
    }
    return t[ops];
}
Vec upto(int ops, Vec const &leaves, std::string const &bins, bool unary) {
    Vec r;
    for (int n = 0; n <= ops; ++n) { auto t = trees(n, leaves, bins, unary); r.insert(r.end(), t.begin(), t.end()); }
    return r;
}

// ------------------------------------------------------------------ names of variables
struct Term {
    std::string text;      // as written
    std::string name;      // canonical symbol (empty: must be rejected)
    bool integral{true};   // a number
    long value{0};
};
std::vector<Term> arith_terms(int depth) {
    std::vector<Term> base;
    for (long v : {0, 1, 2, 3}) { base.push_back({std::to_string(v), std::to_string(v), true, v}); }
    std::vector<Term> all = base, prev = base;
    for (int d = 0; d < depth; ++d) {
        std::vector<Term> next;
        for (auto &a : prev) {
            if (a.text[0] != '-') { next.push_back({"-(" + a.text + ")", std::to_string(-a.value), true, -a.value}); }
            for (auto &b : base) {
                for (char o : std::string("+-*/")) {
                    long v = 0;
                    bool ok = true;
                    if (o == '+') { v = a.value + b.value; }
                    if (o == '-') { v = a.value - b.value; }
                    if (o == '*') { v = a.value * b.value; }
                    if (o == '/') { if (b.value == 0) { ok = false; } else { v = a.value / b.value; } }
                    if (a.name.empty()) { ok = false; }
                    next.push_back({"(" + a.text + ")" + o + b.text, ok ? std::to_string(v) : "", true, v});
                }
            }
        }
        all.insert(all.end(), next.begin(), next.end());
        prev = next;
    }
    return all;
}

void run_names(std::string const &a, std::string const &an, std::string const &b, std::string const &bn, bool rdl, Results &res) {
    auto str = "NAME#" + a + "#" + an + "#" + b + "#" + bn + "#" + (rdl ? "1" : "0");
    set_current("EXPR " + str);
    res.add("states");
    auto o = exec("&diff{" + a + " - " + b + "} <= -1.\n", rdl, res);
    bool bad = an.empty() || bn.empty();
    if (o.error) {
        if (!bad) { fail("rejected", "constraint over " + a + " and " + b + " was rejected: " + o.msg, str); }
        return;
    }
    if (bad) { fail("misread", "constraint over " + a + " and " + b + " was accepted but has to be rejected", str); }
    if (an == bn) {
        if (!o.answers.empty()) { fail("identity", a + " and " + b + " are equal but denote different variables: " + show(o.answers), str); }
        return;
    }
    if (o.answers.size() != 1) { fail("identity", a + " and " + b + " are different: " + show(o.answers), str); }
    Values want;
    if (an != "0") { want[an] = bn == "0" ? -1 : 0; }
    if (bn != "0") { want[bn] = 1; }
    if (o.answers[0].values != want) { fail("identity", a + " and " + b + " lead to " + show(o.answers) + ", expected variables " + an + " and " + bn, str); }
}

void names(Ctx &x) {
    auto ar = arith_terms(x.thorough ? 2 : 1);
    std::vector<Term> subj; // general terms
    auto T = [&](std::string t, std::string n) { subj.push_back({std::move(t), std::move(n), false, 0}); };
    for (size_t i = 0; i < ar.size(); ++i) {
        auto &a = ar[i];
        auto f = [&](std::string n) { return a.name.empty() ? std::string() : n; };
        T("f(" + a.text + ")", f("f(" + a.name + ")"));
        if (i % 3 == 0) { T("g(" + a.text + ",c)", f("g(" + a.name + ",c)")); }
        if (i % 3 == 1) { T("(c," + a.text + ")", f("(c," + a.name + ")")); }
        if (i % 3 == 2) { T("f(g(" + a.text + "))", f("f(g(" + a.name + "))")); }
        if (i % 5 == 0) { T("f((" + a.text + ",))", f("f((" + a.name + ",))")); }
        if (i % 5 == 1) { T("f(-h(" + a.text + "))", f("f(-h(" + a.name + "))")); }
    }
    T("c", "c"); T("f(c)", "f(c)"); T("f(-c)", "f(-c)"); T("f(-(-c))", "f(c)"); T("\"s\"", "\"s\""); T("f(\"s\")", "f(\"s\")"); T("f(\"a b\")", "f(\"a b\")"); T("f(\"\\\"q\\\"\\\\\\n\")", "f(\"\\\"q\\\"\\\\\\n\")");
    for (auto t : {"\"5x\"", "\"1e\"", "\"-\"", "\"\"", "\"1.5.2\"", "\"3 4\"", "\"e5\"", "f(\"5x\")", "f(\"5\")"}) { T(t, t); }
    T("f(#sup)", "?"); T("f(c+1)", ""); T("f(1-c)", ""); T("f(c*c)", ""); T("f(2/c)", ""); T("f(-\"s\")", ""); T("f(-(1,2))", ""); T("f(f(1)+1)", ""); T("f()", "f"); T("()", "()"); T("f(())", "f(())"); T("f((1,2),3)", "f((1,2),3)");
    T("f(2147483647+1)", ""); T("f(-2147483647-1)", "f(-2147483648)"); T("f(65536*65536)", ""); T("f(-2147483647-2)", ""); T("f((-2147483647-1)/(-1))", ""); T("f(7/2)", "f(3)"); T("f((-7)/2)", "f(-3)"); T("f(7/(-2))", "f(-3)"); T("f(1/0)", "");
    subj.erase(std::remove_if(subj.begin(), subj.end(), [](Term const &t) { return t.name == "?"; }), subj.end());
    std::vector<Term> part{{"c", "c", false, 0}, {"f(1)", "f(1)", false, 0}, {"f(2)", "f(2)", false, 0}, {"f(-1)", "f(-1)", false, 0}, {"g(1,c)", "g(1,c)", false, 0}, {"(c,1)", "(c,1)", false, 0}, {"f(g(1))", "f(g(1))", false, 0}, {"f(3)", "f(3)", false, 0}, {"f(-c)", "f(-c)", false, 0}};
    for (auto &a : subj) {
        for (auto &b : part) {
            if (!x.mine()) { continue; }
            run_names(a.text, a.name, b.text, b.name, false, x.res);
            // with real numbers quotients are not integral in general
            if (a.text.find('/') == std::string::npos && a.text.find("2147483") == std::string::npos && a.text.find("65536") == std::string::npos) { run_names(a.text, a.name, b.text, b.name, true, x.res); }
        }
        for (size_t k = 0; k < subj.size(); k += x.thorough ? 3 : 17) {
            if (!x.mine()) { continue; }
            run_names(a.text, a.name, subj[k].text, subj[k].name, false, x.res);
        }
    }
}

// ------------------------------------------------------------------ limits of the number range
//! Constraint w op E: check every value around the bound.
void run_probe(std::string const &e, int op, int form, Int b, int expect, Results &res) {
    std::ostringstream st;
    st << "PROBE#" << e << "#" << op << "#" << form << "#" << static_cast<long>(b) << "#" << expect;
    auto str = st.str();
    set_current("EXPR " + str);
    res.add("states");
    // forms: how the constraint is written
    auto sym = std::string(OPS[op]);
    int const flip[] = {GE, LE, GT, LT, EQ, NE};
    std::string t;
    bool body = form % 2 == 1;
    switch (form / 2) {
        case 0: t = "&diff{w} " + sym + " " + e; break;
        case 1: t = "&diff{w - (" + e + ")} " + sym + " 0"; break;
        case 2: t = "&diff{0} " + std::string(OPS[flip[op]]) + " w - (" + e + ")"; break;
        default: t = "&diff{" + e + " - w} " + std::string(OPS[flip[op]]) + " 0"; break;
    }
    t = body ? "x :- " + t + ".\n#show x/0.\n" : t + ".\n";
    bool first = true;
    for (Int v : {b - 1, b, b + 1}) {
        if (v > IMAX - 1 || v < -IMAX + 1) {
            if (!first || expect == 0) { continue; }
            v = 0; // at least check that it is rejected
            if (expect != 1) { continue; }
        }
        std::string p = std::to_string(static_cast<long>(v));
        auto o = exec(t + "&diff{w} <= " + p + ".\n&diff{w} >= " + p + ".\n", false, res);
        first = false;
        if (o.error) {
            if (expect == 0) { fail("rejected", "constraint " + t + " was rejected: " + o.msg, str); }
            return;
        }
        if (expect == 1) { fail("misread", "constraint " + t + " was accepted but is not representable", str); }
        bool holds = false;
        switch (op) {
            case LE: holds = v <= b; break;
            case GE: holds = v >= b; break;
            case LT: holds = v < b; break;
            case GT: holds = v > b; break;
            case EQ: holds = v == b; break;
            default: holds = v != b; break;
        }
        bool ok = body ? o.answers.size() == 1 && (o.answers[0].atoms.find('x') != std::string::npos) == holds : (o.answers.size() == 1) == holds && o.answers.size() <= 1;
        if (!ok) { fail("misread", "constraint " + t + " with w = " + p + " leads to " + show(o.answers) + " but " + (holds ? "holds" : "does not hold"), str); }
    }
}
//! What is expected of w op b with exact bound b.
int expect_bound(Lin<Int> const &l, int op, bool body) {
    if (l.bad) { return 1; }
    std::vector<Int> ws;
    Int b = l.c;
    if (op == LE || op == EQ) { ws.push_back(b); }
    if (op == GE || op == EQ) { ws.push_back(-b); }
    if (op == LT || op == NE) { ws.push_back(b - 1); }
    if (op == GT || op == NE) { ws.push_back(-b - 1); }
    if (body) {
        auto k = ws;
        for (auto w : k) { ws.push_back(-1 - w); }
        if (op == EQ || op == NE) { ws.push_back(b - 1); ws.push_back(-b - 1); }
    }
    bool must = !l.maybe && l.mag < IMAX, bad = false;
    for (auto w : ws) {
        if (w > IMAX || w < -IMAX) { must = false; }
        if (w > IMAX || w < -IMAX - 1) { bad = true; }
    }
    return bad ? 1 : must ? 0 : 2;
}

void limits(Ctx &x) {
    Vec leaves{num(0), num(1), num(2), num(INT_MAX), num(INT_MAX - 1), num(46341), num(65536), num(32768), strn("2147483647"), strn("-2147483647"), strn("-5"), strn("17")};
    auto const small = upto(1, leaves, "+-*/", true);
    size_t k = 0;
    auto go = [&](N const &n, int style, int op, int form) {
        if (!x.mine()) { return; }
        auto l = eval<Int>(*n);
        auto e = render(*n, style, "");
        if (l.bad) { l.c = 0; }
        run_probe(e, op, form, l.c, expect_bound(l, op, form % 2 == 1), x.res);
    };
    for (auto &n : small) { for (int op = 0; op < 6; ++op) { for (int form = 0; form < 8; ++form) { go(n, static_cast<int>(k++ % 3), op, form); } } }
    Vec l2{num(1), num(2), num(INT_MAX), num(46341), num(65536), num(INT_MAX - 1)};
    for (auto &n : trees(2, l2, "+-*/", true)) {
        for (int op = 0; op < 6; ++op) {
            go(n, static_cast<int>(k % 3), op, static_cast<int>(k / 2 % 8));
            ++k;
        }
    }
    if (x.thorough) {
        Vec l3{num(1), num(INT_MAX), num(46341), num(2)};
        for (auto &n : trees(3, l3, "+-*", false)) { go(n, static_cast<int>(k % 3), static_cast<int>(k / 3 % 6), static_cast<int>(k / 2 % 8)); ++k; }
    }
}

void run_text(std::string const &text, bool rdl, int expect, Results &res);

//! Coefficients: products and sums of large factors that become one again modulo powers of two.
void coefficients(Ctx &x) {
    std::vector<Int> F{0, 1, -1, 2, 3, 641, 6700417, 65536, 65537, 1431655765, 1431655766, INT_MAX, -static_cast<Int>(INT_MAX)};
    struct Shape { char const *t; std::function<Int(Int, Int, Int)> f; };
    std::vector<Shape> shapes{
        {"A*u*B + C*u", [](Int a, Int b, Int c) { return a * b + c; }},
        {"A*(B*u) - u*C", [](Int a, Int b, Int c) { return a * b - c; }},
        {"(u*A + B*u)*C", [](Int a, Int b, Int c) { return (a + b) * c; }},
        {"A*u - B*u + u*C", [](Int a, Int b, Int c) { return a - b + c; }},
        {"-(A*B*u) + C*(u + t - t)", [](Int a, Int b, Int c) { return c - a * b; }},
        {"A*(B*(u*C))", [](Int a, Int b, Int c) { return a * b * c; }},
    };
    for (auto &sh : shapes) {
        for (auto a : F) {
            for (auto b : F) {
                for (auto c : F) {
                    if (!x.mine()) { continue; }
                    std::string e;
                    for (char const *p = sh.t; *p != 0; ++p) {
                        Int v = *p == 'A' ? a : *p == 'B' ? b : c;
                        if (*p < 'A' || *p > 'C') { e += *p; }
                        else { e += v < 0 ? "(" + std::to_string(static_cast<long>(v)) + ")" : std::to_string(static_cast<long>(v)); }
                    }
                    auto pos = [](Int v) { return v < 0 ? -v : v; };
                    Int big = (pos(a) + 1) * (pos(b) + 1) * (pos(c) + 1); // bound for everything that can occur on the way
                    Int k = sh.f(a, b, c);
                    for (int sg : {-1, 1}) {
                        bool ok = k == 0 || k == -sg;
                        run_text("&diff{" + e + (sg < 0 ? " - v" : " + v") + "} <= 1 :- a. {a}.", false, !ok ? 1 : big <= IMAX ? 0 : 2, x.res);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ malformed constraints
void run_text(std::string const &text, bool rdl, int expect, Results &res) {
    auto t = text;
    for (auto &c : t) { if (c == '\n') { c = ' '; } if (c == '#') { c = '@'; } }
    auto str = "TEXT#" + t + "#" + (rdl ? "1" : "0") + "#" + std::to_string(expect);
    set_current("EXPR " + str);
    res.add("states");
    auto o = exec(text, rdl, res);
    if (expect == 1 && !o.error) { fail("misread", "program " + text + " was accepted: " + show(o.answers), str); }
    if (expect == 0 && (o.error || o.answers.empty())) { fail("rejected", "program " + text + " was rejected: " + o.msg, str); }
}

void malformed(Ctx &x) {
    // every sum of up to three terms with small coefficients
    std::vector<std::pair<int, int>> terms; // coefficient, variable (3: constant)
    for (int v = 0; v < 4; ++v) { for (int c : {-3, -2, -1, 0, 1, 2, 3}) { terms.emplace_back(c, v); } }
    auto show_term = [](std::pair<int, int> t) {
        std::string c = t.first < 0 ? "(" + std::to_string(t.first) + ")" : std::to_string(t.first);
        if (t.second == 3) { return c; }
        auto v = std::string(1, "uvt"[t.second]);
        return t.first == 1 ? v : t.first == -1 ? "(-" + v + ")" : t.first % 2 == 0 ? c + "*" + v : v + "*" + c;
    };
    int k = 0;
    auto sum = [&](std::vector<std::pair<int, int>> const &ts, std::pair<int, int> rhs) {
        if (!x.mine()) { return; }
        int co[4] = {0, 0, 0, 0};
        std::string l;
        for (auto &t : ts) { co[t.second] += t.first; l += (l.empty() ? "" : " + ") + show_term(t); }
        co[rhs.second] -= rhs.first;
        int plus = 0, minus = 0, other = 0;
        for (int v = 0; v < 3; ++v) { if (co[v] == 1) { ++plus; } else if (co[v] == -1) { ++minus; } else if (co[v] != 0) { ++other; } }
        bool ok = plus <= 1 && minus <= 1 && other == 0;
        bool trivially_false = ok && plus + minus == 0 && co[3] > 0;
        auto con = "&diff{" + l + "} <= " + show_term(rhs);
        // a condition keeps trivially false constraints from making the program inconsistent
        run_text(con + " :- a. {a}.", k % 3 == 0, ok ? 0 : 1, x.res);
        if (++k % 2 == 0) { run_text("a :- " + con + ". ", false, ok ? 0 : 1, x.res); }
        if (!trivially_false && k % 5 == 0) { run_text(con + ".", false, ok ? 0 : 1, x.res); }
    };
    for (auto &a : terms) {
        for (auto &b : terms) {
            for (auto &r : terms) { if (x.thorough || std::abs(r.first) <= 2) { sum({a, b}, r); } }
        }
        for (auto &r : terms) { sum({a}, r); }
    }
    std::vector<std::pair<int, int>> unit;
    for (auto &t : terms) { if (std::abs(t.first) == 1) { unit.push_back(t); } }
    for (auto &a : unit) { for (auto &b : unit) { for (auto &c : unit) { for (auto &r : unit) { sum({a, b, c}, r); } } } }
    // atoms of unsupported shape
    for (auto s : {"&diff{u-v}.", "&diff{u-v;v-u} <= 1.", "&diff{} <= 1.", "p. &diff{u-v : p} <= 1.", "&diff{u-v,1} <= 1.", "&diff{u-v,v} <= 1.", "&diff(1){u-v} <= 1.", "&diff{u-v} <= 1/0.", "&diff{u-v} <= 1/(2-2).", "&diff{u-v} <= u/v.",
                   "&diff{u*v} <= 1.", "&diff{u*u} <= 1.", "&diff{u/2} <= 1.", "&diff{2/u} <= 1.", "&diff{u-v} <= u*v.", "&diff{u ** 2} <= 1.", "&diff{u \\ 2} <= 1.", "&diff{u-v} == 1.", "&diff{u-v} <> 1.", "&diff{u..v} <= 1.", "&diff{+u} <= 1.",
                   "&diff{u?v} <= 1.", "&diff{u-v} <= 1 :- &diff{u}.", "a :- &diff{u-v}.", "a :- &diff{u-v;v-u}<=1.", "a :- &diff{u-v:b}<=1. {b}.", "a :- &diff{}<=1.", "a :- not &diff{u+v}<=1.", "a :- not not &diff{u,v}<=1.", ":- &diff{u-v}.", "&diff{{u}} <= 1.",
                   "&diff{[u]} <= 1.", "&diff{u-v} <= {1}.", "&diff{(u-v)*(u-v)} <= 1.", "&diff{u-v} <= 1 - .", "&diff{(u,v)-(u,v)-(u,v)-(v,u)} <= 1.", "&diff{-(-(u+v))} <= 1.", "&diff{f(1/0)} <= 1.", "&diff{f(u+1)} <= 1.", "&diff{f(-(1,2))} <= 1.", "&diff{f(-\"s\")} <= 1.", "&diff{f({1})} <= 1.",
                   "&diff{u-v-t} <= 1.", "&diff{u-v} <= t.", "&diff{u+v} <= 1.", "&diff{-u-v} <= 1.", "&diff{2*u} <= 1.", "&diff{u+u-v} <= 1.", "&diff{0} <= u+v.", "&diff{u} <= 3*v.", "&diff{u-v} <= \"1.5\".", "&diff{u-v} <= \"3000000000\".", "&diff{u-v} <= \"-3000000000\".",
                   "&diff{u-v} <= \"2147483648\".", "&diff{u-v} <= \"inf\".", "&diff{u-v} <= \"nan\".", "&diff{u-v} <= \"1e400\".", "&diff{u-v} <= \"-1e400\".", "&diff{u-v} <= \"0.1\".", "&diff{u-v} <= \"1e-5\".", "&diff{u-v} <= \"4294967297\"."}) {
        if (x.mine()) { run_text(s, false, 1, x.res); }
        auto t = std::string(s);
        bool num = t.find('"') != std::string::npos && t.find("inf") == std::string::npos && t.find("nan") == std::string::npos && t.find("e400") == std::string::npos && t.find("\"s\"") == std::string::npos;
        if (!num && x.mine()) { run_text(s, true, 1, x.res); }
    }
    for (auto s : {"&diff{u-v} <= \"1e308\"*10.", "&diff{u-v} <= \"1e308\"*10-\"1e308\"*10.", "&diff{u*(\"1e308\"*10)-v} <= 1.", "&diff{f(\"1e308\"*10)} <= 1.", "&diff{f(0/0)-v} <= 1.", "&diff{f(\"1e308\"+\"1e308\"+\"1e308\"-\"1e308\")-v} <= 1.", "&diff{\"1e308\"} >= u - \"1e308\"."}) { if (x.mine()) { run_text(s, true, 1, x.res); } }
    for (auto s : {"&diff{u-v} <= \"5\".", "&diff{u-v} <= \"-5\".", "&diff{u-v} <= 2147483647.", "&diff{u-v} <= -2147483647.", "&diff{v-u} >= 2147483647.", "&diff{(u-v)} <= (1).", "&diff{0} <= 0.", "&diff{u-u} <= 0.", "&diff{u*1} <= 1.", "&diff{3*u-2*u} <= 1.", "&diff{u-v} <= 1.",
                   "&diff{u} <= v.", "&diff{u+1} <= v+2.", "&diff{5} >= u.", "&diff{-(u-v)} < 4.", "&diff{2*(u-v)-(u-v)} != 4.", "&diff{u-v+t-t} <= 1.", "&diff{u+v} <= 2*v.", "&diff{2*u} <= u+v.", "&diff{(a,b)-f(x,1)} <= 1.", "&diff{u-v} <= \"2147483647\".", "&diff{\"s\"-v} <= 1."}) {
        if (x.mine()) { run_text(s, false, 0, x.res); }
        if (x.mine()) { run_text(s, true, 0, x.res); }
    }
    // real numbers do not occur in bodies
    for (auto s : {"a :- &diff{u-v} <= 1.", "a :- not &diff{u-v} <= \"1.5\".", ":- &diff{u-v} = 1.", "&diff{u} <= 1 :- &diff{v} <= 1."}) { if (x.mine()) { run_text(s, true, 1, x.res); } }
    for (auto s : {"&diff{u-v} <= \"1.5\".", "&diff{u-v} < \"0.25\".", "&diff{u-v} != \"-0.25\" :- a. {a}.", "&diff{u-v} <= \"1e-5\".", "&diff{u-v} <= \"3000000000\".", "&diff{u-v} <= \"1e10\"/4.", "&diff{u-v} <= 1/4."}) { if (x.mine()) { run_text(s, true, 0, x.res); } }
}

void trees_int(Ctx &x) {
    Batch b(x, false);
    uint64_t k = 0;
    auto pairs = [&](Vec const &ls, Vec const &rs, int stride) {
        uint64_t n = 0;
        for (auto &l : ls) {
            for (auto &r : rs) {
                if (n++ % stride != 0) { continue; }
                ++k;
                if (x.mine()) { b.add(make_item<Int>(l, r, static_cast<int>(k % 3), false)); }
            }
        }
    };
    bool T = x.thorough;
    Vec leaves{num(0), num(1), num(2), num(3), num(7), var(0), var(1), strn("4"), strn("-3")};
    Vec few{num(2), num(3), var(0), var(1)};
    auto l0 = leaves, l1 = upto(1, leaves, "+-*/", true), l2 = trees(2, leaves, "+-*/", true);
    Vec u{var(0)}, one{num(1), bin('-', var(1), num(2))};
    pairs(l1, l1, 1);
    pairs(l2, one, 1);
    pairs(trees(2, few, "+-*/", true), l1, T ? 1 : 7);
    // constant expressions: division and nesting
    Vec cst{num(0), num(1), num(2), num(3), num(7)};
    Vec lhs{bin('-', var(0), var(1))};
    pairs(lhs, trees(2, cst, "+-*/", true), 1);
    pairs(lhs, trees(3, {num(1), num(2), num(7)}, "+-*/", true), 1);
    pairs(trees(3, few, "+-*", true), {num(5)}, 1);
    pairs(trees(3, {num(2), var(0), var(1)}, "+-*/", false), {bin('+', var(1), num(1))}, 1);
    if (T) { pairs(trees(4, {num(2), num(3), var(0)}, "+-*", false), {var(1)}, 3); }
    b.flush();
}
void trees_real(Ctx &x) {
    Batch b(x, true);
    uint64_t k = 0;
    bool T = x.thorough;
    auto pairs = [&](Vec const &ls, Vec const &rs, int stride) {
        uint64_t n = 0;
        for (auto &l : ls) {
            for (auto &r : rs) {
                if (n++ % stride != 0) { continue; }
                ++k;
                if (x.mine()) { b.add(make_item<double>(l, r, static_cast<int>(k % 3), true)); }
            }
        }
    };
    Vec leaves{num(0), num(2), num(4), strn("0.5"), strn("-1.25"), strn("8"), var(0), var(1)};
    auto l1 = upto(1, leaves, "+-*/", true);
    pairs(l1, l1, 1);
    pairs({bin('-', var(0), var(1))}, trees(2, {num(2), num(4), strn("0.5"), num(0)}, "+-*/", true), 1);
    pairs(trees(2, leaves, "+-*/", true), {var(1), num(1)}, 1);
    b.flush();
}

} // namespace

void check_expr(Ctx &x, std::string const &prop) {
    if (prop == "C13") {
        trees_int(x);
        trees_real(x);
        names(x);
        coefficients(x);
        malformed(x);
        limits(x);
    } else {
        malformed(x);
        coefficients(x);
        limits(x);
        names(x);
        trees_real(x);
        trees_int(x);
    }
}

void replay_expr(std::string const &s, Results &res) {
    auto f = split(s, '#');
    auto un = [](std::string t) { for (auto &c : t) { if (c == '@') { c = '#'; } } return t; };
    if (f[0] == "VAL") {
        Item i;
        i.l = un(f[1]); i.r = un(f[2]); i.expect = std::stoi(f[3]); i.pin = un(f[4]); i.obs = un(f[5]); i.value = std::stod(f[6]); i.rdl = f[7] == "1";
        run_item(i, res);
    } else if (f[0] == "NAME") {
        run_names(f[1], f[2], f[3], f[4], f[5] == "1", res);
    } else if (f[0] == "PROBE") {
        run_probe(f[1], std::stoi(f[2]), std::stoi(f[3]), std::stol(f[4]), std::stoi(f[5]), res);
    } else {
        run_text(un(f[1]), f[2] == "1", std::stoi(f[3]), res);
    }
}

} // namespace e2e
