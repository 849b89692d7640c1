// End-to-end harness: sessions, programs, brute force reference, entry point.
#include "e2e.hh"
#include <cmath>
#include <fstream>
#include <iostream>
#include <unistd.h>

namespace e2e {

using core::OPS;
using namespace core;

// ------------------------------------------------------------------ helpers
Strings split(std::string const &s, char sep) {
    Strings r;
    std::istringstream in(s);
    std::string t;
    while (std::getline(in, t, sep)) { r.push_back(t); }
    if (!s.empty() && s.back() == sep) { r.emplace_back(); }
    return r;
}
Config parse_config(std::string const &s) {
    Config c;
    std::istringstream in(s);
    std::string kv;
    while (in >> kv) {
        auto p = kv.find(':');
        c.emplace_back(kv.substr(0, p), kv.substr(p + 1));
    }
    return c;
}
std::string show_config(Config const &c) {
    std::string r;
    for (auto &[k, v] : c) { r += (r.empty() ? "" : " ") + k + ":" + v; }
    return r;
}
std::string show(Answer const &a) {
    std::ostringstream o;
    o << "[" << a.atoms << " |";
    o.precision(12);
    for (auto &[k, v] : a.values) { o << " " << k << "=" << v; }
    o << "]";
    return o.str();
}
std::string show(std::vector<Answer> const &a) {
    std::string r = "{";
    for (auto &x : a) { r += show(x); }
    return r + "}";
}

bool Ctx::mine() {
    if (idx++ % nw != static_cast<uint64_t>(w)) { return false; }
    if (stop_requested()) { throw Stop{}; }
    if (args.limit > 0) {
        std::chrono::duration<double> d = std::chrono::steady_clock::now() - t0;
        if (d.count() > args.limit) { res.n["capped"] = 1; throw Stop{}; }
    }
    return true;
}

// ------------------------------------------------------------------ sessions
namespace {
void must(bool ok, char const *what) {
    if (!ok) {
        char const *m = clingo_error_message();
        throw std::runtime_error(std::string(what) + " failed: " + (m != nullptr ? m : "no message"));
    }
}
} // namespace

Session::Session(Config const &opts, Strings const &args) {
    std::vector<char const *> a;
    for (auto &s : args) { a.push_back(s.c_str()); }
    ctl = std::make_unique<Clingo::Control>(Clingo::StringSpan{a.data(), a.size()},
                                            [this](Clingo::WarningCode, char const *m) { warnings += m; }, 20);
    must(clingodl_create(&theory), "clingodl_create");
    for (auto &[k, v] : opts) { must(clingodl_configure(theory, k.c_str(), v.c_str()), "clingodl_configure"); }
    must(clingodl_register(theory, ctl->to_c()), "clingodl_register");
}

Session::~Session() {
    ctl.reset();
    if (theory != nullptr) { clingodl_destroy(theory); }
}

void Session::add(std::string const &text) {
    Clingo::AST::with_builder(*ctl, [&](Clingo::AST::ProgramBuilder &b) {
        ClingoDL::Rewriter rw{theory, b.to_c()};
        rw.rewrite(*ctl, text.c_str());
    });
}

void Session::ground(char const *part, std::vector<Clingo::Symbol> const &params) {
    ctl->ground({{part, Clingo::SymbolSpan{params.data(), params.size()}}});
}

bool Session::on_model(Clingo::Model &m) {
    ++models;
    must(clingodl_on_model(theory, m.to_c()), "clingodl_on_model");
    Answer a;
    Strings atoms;
    for (auto &s : m.symbols(Clingo::ShowType::Shown)) { atoms.push_back(s.to_string()); }
    std::sort(atoms.begin(), atoms.end());
    for (auto &s : atoms) { a.atoms += (a.atoms.empty() ? "" : " ") + s; }
    size_t idx = 0;
    std::set<std::string> pairs;
    auto tid = m.thread_id();
    clingodl_assignment_begin(theory, tid, &idx);
    while (clingodl_assignment_next(theory, tid, &idx)) {
        clingodl_value_t v;
        clingodl_assignment_get_value(theory, tid, idx, &v);
        Clingo::Symbol sym{clingodl_get_symbol(theory, idx)};
        double d = v.type == clingodl_value_type_int ? v.int_number : v.double_number;
        a.values[sym.to_string()] = d;
        if (d == 0 && std::signbit(d)) { api_error_ = "the value of " + sym.to_string() + " is a negative zero"; }
        pairs.insert("dl(" + sym.to_string() + "," + (v.type == clingodl_value_type_int ? std::to_string(v.int_number) : "\"" + std::to_string(d) + "\"") + ")");
    }
    if (check_api) {
        std::set<std::string> ext;
        for (auto &s : m.symbols(Clingo::ShowType::Theory)) { ext.insert(s.to_string()); }
        if (ext != pairs) {
            api_error_ = "model extended by {";
            for (auto &s : ext) { api_error_ += " " + s; }
            api_error_ += " } but the assignment is {";
            for (auto &s : pairs) { api_error_ += " " + s; }
            api_error_ += " }";
        }
    }
    answers_.push_back(std::move(a));
    return true;
}

void Session::on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) {
    if (stats) { must(clingodl_on_statistics(theory, step.to_c(), accu.to_c()), "clingodl_on_statistics"); }
}

std::vector<Answer> Session::solve(std::vector<clingo_literal_t> const &assume) {
    answers_.clear();
    ctl->solve(Clingo::LiteralSpan{assume.data(), assume.size()}, this, false, false).get();
    if (!api_error_.empty()) { throw Violation("api", api_error_); }
    std::sort(answers_.begin(), answers_.end());
    return answers_;
}

// ------------------------------------------------------------------ programs
std::string Prog::str() const {
    std::ostringstream o;
    o << ne << " " << nq << " " << scale << " " << rdl << " " << cons.size();
    for (auto &c : cons) { o << " " << c.u << " " << c.v << " " << c.op << " " << c.w; }
    o << " " << stms.size();
    for (auto &s : stms) {
        o << " " << s.head << " " << s.idx << " " << s.step << " " << s.body.size();
        for (auto &b : s.body) { o << " " << b.kind << " " << b.idx << " " << b.sign; }
    }
    return o.str();
}
Prog Prog::parse(std::string const &str) {
    Prog p;
    std::istringstream in(str);
    size_t n = 0;
    in >> p.ne >> p.nq >> p.scale >> p.rdl >> n;
    p.cons.resize(n);
    for (auto &c : p.cons) { in >> c.u >> c.v >> c.op >> c.w; }
    in >> n;
    p.stms.resize(n);
    for (auto &s : p.stms) {
        in >> s.head >> s.idx >> s.step >> n;
        s.body.resize(n);
        for (auto &b : s.body) { in >> b.kind >> b.idx >> b.sign; }
    }
    return p;
}
int Prog::steps() const {
    int n = 0;
    for (auto &s : stms) { n = std::max(n, s.step); }
    return n + 1;
}
int Prog::nvars() const {
    int n = 0;
    for (auto &c : cons) { n = std::max({n, c.u, c.v}); }
    return n;
}
std::string Prog::con(int i) const {
    auto &c = cons[i];
    auto var = [](int v) { return v == 0 ? std::string("0") : "v" + std::to_string(v); };
    std::ostringstream o;
    o << "&diff{" << var(c.u);
    // alternate between the two ways of writing a constraint on a single variable
    if (c.v != 0 || i % 2 == 0) { o << "-" << var(c.v); }
    o << "} " << OPS[c.op] << " ";
    if (rdl) {
        o.precision(17);
        o << "\"" << c.w * scale << "\"";
    } else { o << c.w; }
    return o.str();
}
std::string Prog::text(int step) const {
    std::ostringstream o;
    if (step == 0) {
        o << "#program base.\n#show e/1. #show x/1. #show q/1.\n";
        if (ne > 0) { o << "{e(1.." << ne << ")}.\n"; }
        if (nq > 0) { o << "#external q(1.." << nq << ").\n"; }
    }
    o << "#program s" << step << ".\n";
    for (auto &s : stms) {
        if (s.step != step) { continue; }
        if (s.head == HEAD_DIFF) { o << con(s.idx); }
        if (s.head == HEAD_X) { o << "x(" << s.idx << ")"; }
        static char const *const falsities[] = {"", "#false", "not #true", "not not #false"};
        static char const *const truths[] = {"#true", "not #false", "not not #true"};
        if (s.head == HEAD_NONE) { o << falsities[s.idx]; }
        if (s.head == HEAD_TRUE) { o << truths[s.idx]; }
        char const *sep = " :- ";
        for (auto &b : s.body) {
            o << sep << (b.sign == 0 ? "" : b.sign == 1 ? "not " : "not not ");
            if (b.kind == ATOM_DIFF) { o << con(b.idx); }
            else { o << (b.kind == ATOM_E ? "e(" : "q(") << b.idx << ")"; }
            sep = ", ";
        }
        o << ".\n";
    }
    return o.str();
}

// ------------------------------------------------------------------ reference semantics
namespace {
//! Alternatives under which a constraint (or its negation) holds.
std::vector<std::vector<REdge>> expand(Con c, bool truth, double scale, double eps) {
    int op = c.op;
    if (!truth) {
        int const neg[] = {GT, LT, GE, LE, NE, EQ};
        op = neg[op];
    }
    double w = c.w * scale;
    REdge le{c.u, c.v, w, 0}, ge{c.v, c.u, -w, 0}, lt{c.u, c.v, w - eps, 0}, gt{c.v, c.u, -w - eps, 0};
    switch (op) {
        case LE: return {{le}};
        case GE: return {{ge}};
        case LT: return {{lt}};
        case GT: return {{gt}};
        case EQ: return {{le, ge}};
        default: return {{lt}, {gt}};
    }
}
//! Least non-negative solution shifted by the constant 0 of the component.
Values canonical(std::vector<REdge> const &es, std::vector<int> const &comp) {
    int nv = static_cast<int>(comp.size()) - 1;
    int n = nv + 1 + nv + 1;
    std::vector<char> def(n, 0);
    std::vector<REdge> ze;
    for (auto x : es) {
        if (x.u == x.v) { continue; }
        int c = comp[x.u != 0 ? x.u : x.v];
        if (x.u == 0) { x.u = nv + 1 + c; }
        if (x.v == 0) { x.v = nv + 1 + c; }
        def[x.u] = def[x.v] = 1;
        ze.push_back(x);
    }
    auto val = least_solution(ze, n);
    Values ret;
    for (int i = 1; i <= nv; ++i) {
        if (!def[i]) { continue; }
        int z = nv + 1 + comp[i];
        ret["v" + std::to_string(i)] = val[i] - (def[z] ? val[z] : 0);
    }
    return ret;
}

//! All partitions of the variables between the fine and the coarse one.
void for_each_partition(std::vector<int> const &fine, std::vector<int> const &coarse, int nv, std::function<void(std::vector<int> const &)> const &fn) {
    std::vector<int> cur(nv + 1, 0);
    std::function<void(int)> rec = [&](int i) {
        if (i > nv) { fn(cur); return; }
        std::set<int> tried;
        for (int j = 1; j <= i; ++j) {
            int c = j == i ? i : cur[j];
            if (!tried.insert(c).second) { continue; }
            bool ok = true;
            for (int k = 1; k < i; ++k) {
                bool same = cur[k] == c;
                if ((same && coarse[k] != coarse[i]) || (!same && fine[k] == fine[i])) { ok = false; }
            }
            if (ok) { cur[i] = c; rec(i + 1); }
        }
    };
    rec(1);
}
} // namespace

std::vector<RefAnswer> reference(Prog const &p, int step, std::vector<bool> const &q, bool cc) {
    std::vector<RefAnswer> ret;
    double eps = p.rdl ? 1.0 / (1 << 17) : 1;
    int nv = p.nvars();
    // distinct body constraints, components
    std::vector<int> rep(p.cons.size());
    std::vector<int> body;
    std::vector<int> comp(nv + 1);
    for (int i = 0; i <= nv; ++i) { comp[i] = i; }
    auto join = [&](Con const &c) {
        if (c.u == 0 || c.v == 0 || c.u == c.v) { return; }
        int a = comp[c.u], b = comp[c.v];
        for (auto &x : comp) { if (x == a) { x = b; } }
    };
    if (!cc) { for (int i = 1; i <= nv; ++i) { comp[i] = 1; } }
    for (size_t i = 0; i < p.cons.size(); ++i) {
        rep[i] = std::find(p.cons.begin(), p.cons.end(), p.cons[i]) - p.cons.begin();
    }
    for (auto &s : p.stms) {
        if (s.step > step) { continue; }
        if (s.head == HEAD_DIFF) { join(p.cons[s.idx]); }
        for (auto &b : s.body) {
            if (b.kind == ATOM_DIFF) {
                join(p.cons[b.idx]);
                if (std::find(body.begin(), body.end(), rep[b.idx]) == body.end()) { body.push_back(rep[b.idx]); }
            }
        }
    }
    for (unsigned e = 0; e < (1U << p.ne); ++e) {
        for (unsigned t = 0; t < (1U << body.size()); ++t) {
            auto truth = [&](BLit const &b) {
                bool v = false;
                if (b.kind == ATOM_E) { v = ((e >> (b.idx - 1)) & 1) != 0; }
                else if (b.kind == ATOM_Q) { v = q[b.idx]; }
                else { v = ((t >> (std::find(body.begin(), body.end(), rep[b.idx]) - body.begin())) & 1) != 0; }
                return v != (b.sign == 1);
            };
            bool ok = true;
            std::set<int> heads, xs;
            for (auto &s : p.stms) {
                if (s.step > step || !ok) { continue; }
                bool fire = true;
                for (auto &b : s.body) { fire = fire && truth(b); }
                if (!fire) { continue; }
                if (s.head == HEAD_NONE) { ok = false; }
                else if (s.head == HEAD_TRUE) { continue; }
                else if (s.head == HEAD_DIFF) { heads.insert(rep[s.idx]); }
                else { xs.insert(s.idx); }
            }
            if (!ok) { continue; }
            std::vector<std::vector<std::vector<REdge>>> alts;
            for (auto h : heads) { alts.push_back(expand(p.cons[h], true, p.scale, eps)); }
            for (size_t i = 0; i < body.size(); ++i) { alts.push_back(expand(p.cons[body[i]], ((t >> i) & 1) != 0, p.scale, eps)); }
            std::vector<size_t> pick(alts.size(), 0);
            for (;;) {
                std::vector<REdge> es;
                for (size_t i = 0; i < alts.size(); ++i) { es.insert(es.end(), alts[i][pick[i]].begin(), alts[i][pick[i]].end()); }
                bool bad = has_negative_cycle(es, nv + 1);
                if (!bad) {
                    RefAnswer r;
                    r.ans.values = canonical(es, comp);
                    if (cc) {
                        std::vector<int> grp(nv + 1);
                        for (int i = 0; i <= nv; ++i) { grp[i] = i; }
                        for (auto &x : es) {
                            if (x.u == 0 || x.v == 0) { continue; }
                            int a = grp[x.u], b = grp[x.v];
                            for (auto &g : grp) { if (g == a) { g = b; } }
                        }
                        for_each_partition(grp, comp, nv, [&](std::vector<int> const &c) {
                            auto v = canonical(es, c);
                            if (v != r.ans.values) { r.other.push_back(v); }
                        });
                    }
                    Strings atoms;
                    for (int i = 1; i <= p.ne; ++i) { if ((e >> (i - 1)) & 1) { atoms.push_back("e(" + std::to_string(i) + ")"); } }
                    for (int i = 1; i <= p.nq; ++i) { if (q[i]) { atoms.push_back("q(" + std::to_string(i) + ")"); } }
                    for (auto x : xs) { atoms.push_back("x(" + std::to_string(x) + ")"); }
                    std::sort(atoms.begin(), atoms.end());
                    for (auto &s : atoms) { r.ans.atoms += (r.ans.atoms.empty() ? "" : " ") + s; }
                    ret.push_back(std::move(r));
                }
                size_t i = 0;
                while (i < pick.size() && ++pick[i] == alts[i].size()) { pick[i++] = 0; }
                if (i == pick.size()) { break; }
            }
        }
    }
    return ret;
}

std::string compare(std::vector<Answer> const &got, std::vector<RefAnswer> const &want, Results &res) {
    std::vector<Answer> w;
    w.reserve(want.size());
    for (auto &r : want) { w.push_back(r.ans); }
    std::sort(w.begin(), w.end());
    if (got.size() != w.size()) {
        return std::to_string(got.size()) + " answers " + show(got) + " but " + std::to_string(w.size()) + " expected " + show(w);
    }
    if (got == w) { return ""; }
    res.add("compared_up_to_components");
    // constraints that are known to be false initially may be ignored by the computation of components
    auto match = [](Answer const &a, RefAnswer const &r) {
        return a.atoms == r.ans.atoms && (a.values == r.ans.values || std::find(r.other.begin(), r.other.end(), a.values) != r.other.end());
    };
    std::vector<int> owner(want.size(), -1);
    std::function<bool(size_t, std::vector<char> &)> aug = [&](size_t i, std::vector<char> &seen) {
        for (size_t j = 0; j < want.size(); ++j) {
            if (!seen[j] && match(got[i], want[j])) {
                seen[j] = 1;
                if (owner[j] < 0 || aug(owner[j], seen)) { owner[j] = i; return true; }
            }
        }
        return false;
    };
    for (size_t i = 0; i < got.size(); ++i) {
        std::vector<char> seen(want.size(), 0);
        if (!aug(i, seen)) { return "unexpected answer " + show(got[i]) + " in " + show(got) + ", expected " + show(w); }
    }
    return "";
}

// ------------------------------------------------------------------ enumeration
void for_each_cons(int V, int E, std::vector<int> const &weights, std::vector<int> const &ops, std::function<void(std::vector<Con> const &)> const &fn) {
    std::vector<Con> all;
    for (int u = 0; u <= V; ++u) {
        for (int v = 0; v <= V; ++v) {
            if (u == v) { continue; }
            for (int op : ops) { for (int w : weights) { all.push_back({u, v, op, w}); } }
        }
    }
    std::vector<Con> cur;
    // up to renaming of variables: first occurrences in order
    std::function<void(size_t, int)> rec = [&](size_t start, int maxv) {
        if (static_cast<int>(cur.size()) == E) { fn(cur); return; }
        for (size_t i = start; i < all.size(); ++i) {
            auto &c = all[i];
            int m = maxv;
            bool ok = true;
            for (int x : {c.u, c.v}) { if (x > m + 1) { ok = false; } else { m = std::max(m, x); } }
            if (!ok) { continue; }
            cur.push_back(c);
            rec(E <= 3 ? 0 : i, m);
            cur.pop_back();
        }
    };
    rec(0, 0);
}

// roles: F fact, H head with own condition, S head with condition e(1), N head with condition not e(1),
// B/M/D body (plain, not, not not) defining x, C/K/J/Z constraints (diff,e1 / not diff,e1 / diff,not e1 / not not diff,e1),
// T/t/V/v rules with heads that are true, U/u/w constraints with spelled out heads,
// L/l/d constraints with diff alone (plain, not, not not), X head derived from the next constraint, Q head with external q
Prog make_prog(std::vector<Con> const &cons, std::string const &roles) {
    Prog p;
    p.cons = cons;
    int nx = 0, own = 0;
    bool shared = roles.find_first_of("SNCKJZ") != std::string::npos;
    own = shared ? 1 : 0;
    for (size_t i = 0; i < cons.size(); ++i) {
        int c = static_cast<int>(i);
        Stm s;
        auto diff = [&](int k, int sign) { return BLit{ATOM_DIFF, k, sign}; };
        switch (roles[i]) {
            case 'F': s.head = HEAD_DIFF; s.idx = c; break;
            case 'H': s.head = HEAD_DIFF; s.idx = c; s.body = {{ATOM_E, ++own, 0}}; break;
            case 'S': s.head = HEAD_DIFF; s.idx = c; s.body = {{ATOM_E, 1, 0}}; break;
            case 'N': s.head = HEAD_DIFF; s.idx = c; s.body = {{ATOM_E, 1, 1}}; break;
            case 'B': s.head = HEAD_X; s.idx = ++nx; s.body = {diff(c, 0)}; break;
            case 'M': s.head = HEAD_X; s.idx = ++nx; s.body = {diff(c, 1)}; break;
            case 'D': s.head = HEAD_X; s.idx = ++nx; s.body = {diff(c, 2)}; break;
            case 'C': s.body = {diff(c, 0), {ATOM_E, 1, 0}}; break;
            case 'K': s.body = {{ATOM_E, 1, 0}, diff(c, 1)}; break;
            case 'J': s.body = {diff(c, 0), {ATOM_E, 1, 1}}; break;
            case 'Z': s.body = {{ATOM_E, 1, 0}, diff(c, 2)}; break;
            case 'L': s.body = {diff(c, 0)}; break;
            case 'l': s.body = {diff(c, 1)}; break;
            case 'd': s.body = {diff(c, 2)}; break;
            case 'W': s.body = {diff(c, 1), diff(static_cast<int>((i + 1) % cons.size()), 0)}; break;
            case 'X': s.head = HEAD_DIFF; s.idx = c; s.body = {diff(static_cast<int>((i + 1) % cons.size()), 0)}; break;
            case 'Q': s.head = HEAD_DIFF; s.idx = c; s.body = {{ATOM_Q, ++p.nq, 0}}; break;
            case 'T': s.head = HEAD_TRUE; s.idx = 0; s.body = {diff(c, 0)}; break;
            case 't': s.head = HEAD_TRUE; s.idx = 1; s.body = {diff(c, 1)}; break;
            case 'V': s.head = HEAD_TRUE; s.idx = 2; s.body = {diff(c, 0)}; break;
            case 'v': s.head = HEAD_TRUE; s.idx = 2; s.body = {diff(c, 1)}; break;
            case 'U': s.idx = 1; s.body = {diff(c, 0)}; break;
            case 'u': s.idx = 2; s.body = {diff(c, 1)}; break;
            case 'w': s.idx = 3; s.body = {diff(c, 0)}; break;
            default: throw std::runtime_error("role");
        }
        p.stms.push_back(s);
    }
    p.ne = own;
    return p;
}

} // namespace e2e

int main(int argc, char **argv) {
    using namespace e2e;
    Args args;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--prop") { args.prop = next(); }
        else if (a == "--tier") { args.tier = next(); }
        else if (a == "--out") { args.out = next(); }
        else if (a == "--replay") { args.replay = next(); }
        else if (a == "--workers") { args.workers = std::stoi(next()); }
        else if (a == "--limit") { args.limit = std::stod(next()); }
        else if (a == "--skip") { next(); }
        else if (a == "--only") { args.only = std::stoi(next()); }
    }
    auto const &p = args.prop;
    bool expr = p == "C13" || p == "C14";
    if (!args.replay.empty()) {
        std::ifstream f(args.replay);
        std::string line;
        std::getline(f, line);
        Results res;
        alarm(120);
        try {
            if (line.compare(0, 4, "ANS ") == 0) { replay_answers(line.substr(4), res); }
            else if (line.compare(0, 5, "EXPR ") == 0) { replay_expr(line.substr(5), res); }
            else if (line.compare(0, 4, "AST ") == 0) { replay_rewrite(line.substr(4), res); }
            else if (line.compare(0, 4, "OPT ") == 0) { replay_optimize(line.substr(4), res); }
            else if (line.compare(0, 5, "LIFE ") == 0) { replay_life(line.substr(5), res); }
            else { throw std::runtime_error("unknown scenario"); }
        } catch (std::exception const &v) {
            std::cout << v.what() << "\n";
            return 1;
        }
        std::cout << "no violation\n";
        return 0;
    }
    return run_workers(args, [&](int w, int nw, Results &res) {
        Ctx x{args, w, nw, res, args.tier == "thorough"};
        try {
            if (expr) { check_expr(x, p); }
            else if (p == "C15") { check_rewrite(x, p); }
            else if (p == "C17") { check_optimize(x, p); }
            else if (p == "C26") { check_life(x, p); }
            else { check_answers(x, p); }
        } catch (Stop const &) { }
    });
}
