#include "explore.hh"
#include <cmath>
#include <cstring>

namespace core {

using mock::Solver;

namespace {
constexpr double NONE = 1e18;
int find_root(std::vector<int> &uf, int x) { while (uf[x] != x) { x = uf[x] = uf[uf[x]]; } return x; }
} // namespace

std::vector<REdge> Reference::expand(Con const &c, double scale, double eps, bool &complex) {
    complex = false;
    double w = c.w * scale;
    std::vector<REdge> r;
    auto le = [&](double b, lit_t l) { r.push_back({c.u, c.v, b, l}); };
    auto ge = [&](double b, lit_t l) { r.push_back({c.v, c.u, -b, l}); };
    auto lt = [&](double b, lit_t l) { le(b - eps, l); };
    auto gt = [&](double b, lit_t l) { ge(b + eps, l); };
    switch (c.op) {
        case LE: le(w, c.lit); if (c.strict) { gt(w, -c.lit); } break;
        case GE: ge(w, c.lit); if (c.strict) { lt(w, -c.lit); } break;
        case LT: lt(w, c.lit); if (c.strict) { ge(w, -c.lit); } break;
        case GT: gt(w, c.lit); if (c.strict) { le(w, -c.lit); } break;
        case EQ:
            le(w, c.lit); ge(w, c.lit);
            if (c.strict) { complex = true; }
            break;
        case NE: complex = true; break;
    }
    return r;
}

void Reference::add(Scenario const &sc, StepDef const &st, Solver const &s) {
    step_start = edges.size();
    scale = sc.rdl ? sc.scale : 1;
    eps = sc.rdl ? 1.0 / (1 << 17) : 1;
    for (auto const &c : st.cons) {
        nv = std::max({nv, c.u, c.v});
        if (c.u != c.v) { for (int x : {c.u, c.v}) { if (x != 0) { used.insert(x); } } }
        bool cx = false;
        auto es = expand(c, scale, eps, cx);
        if (cx) {
            complex_cons.push_back(c);
            // the halves relate the same pair of vertices
            double w = c.w * scale;
            (void)w;
            complex_edges.push_back({{c.u, c.v, 0, 0}});
            continue;
        }
        for (auto const &e : es) {
            edges.push_back(e);
            incl_lo.push_back(!s.is_false(e.lit));
        }
    }
}

void Reference::after_init(Solver const &s) {
    for (size_t i = incl_hi.size(); i < edges.size(); ++i) {
        incl_hi.push_back(incl_lo[i] && !s.is_false(edges[i].lit));
    }
}

Reference::Part Reference::components(bool lo) const {
    Part p;
    std::vector<int> uf(nv + 1);
    for (int i = 0; i <= nv; ++i) { uf[i] = i; }
    auto join = [&](REdge const &e) { if (e.u != 0 && e.v != 0) { uf[find_root(uf, e.u)] = find_root(uf, e.v); } };
    if (cc) {
        for (size_t i = 0; i < edges.size(); ++i) { if (lo ? incl_lo[i] : incl_hi[i]) { join(edges[i]); } }
        for (auto &es : complex_edges) { for (auto &e : es) { join(e); } }
    } else {
        for (int i = 1; i <= nv; ++i) { uf[i] = 1; }
    }
    p.comp.assign(nv + 1, 0);
    std::map<int, int> num;
    for (int i = 1; i <= nv; ++i) {
        auto r = find_root(uf, i);
        p.comp[i] = num.emplace(r, static_cast<int>(num.size())).first->second;
    }
    p.ncomp = num.size();
    return p;
}

std::vector<std::optional<double>> Reference::canonical(std::vector<REdge> const &te, Part const &p) const {
    // vertex ids: 1..nv variables, nv+1+c zero of component c
    int n = nv + 1 + std::max(1, p.ncomp);
    std::vector<REdge> es;
    std::vector<char> def(n, 0);
    for (auto e : te) {
        if (e.u == e.v) { continue; }
        int c = p.comp[e.u != 0 ? e.u : e.v];
        if (e.u == 0) { e.u = nv + 1 + c; }
        if (e.v == 0) { e.v = nv + 1 + c; }
        def[e.u] = def[e.v] = 1;
        es.push_back(e);
    }
    auto val = least_solution(es, n);
    std::vector<std::optional<double>> r(nv + 1);
    for (int i = 1; i <= nv; ++i) {
        if (def[i]) {
            int z = nv + 1 + p.comp[i];
            r[i] = val[i] - (def[z] ? val[z] : 0);
        }
    }
    return r;
}

// ------------------------------------------------------------------ explorer

Explorer::Explorer(Scenario const &s, Results &r) : sc{s}, res{r}, lim{Limits::parse(s.extra)} {
    oracles = lim.oracles;
    ok_jump = lim.jump;
    thread_mode.assign(8, "no");
    for (auto &c : sc.config) {
        if (c.first == "propagate") {
            auto p = c.second.find(',');
            if (p == std::string::npos) { mode = c.second; }
        }
        if (c.first == "propagate-root" && c.second.find(',') == std::string::npos) { root = atol(c.second.c_str()); }
        if (c.first == "propagate-budget") {
            budget = 1;
            budget_limit = strtod(c.second.c_str(), nullptr);
            within_budget = c.second.find(',') == std::string::npos && strtoull(c.second.c_str(), nullptr, 10) >= 1000000;
        }
        if (c.first == "add-mutexes") {
            mutex_size = strtoull(c.second.c_str(), nullptr, 10);
            auto p = c.second.find(',');
            if (p != std::string::npos) { mutex_cutoff = strtoull(c.second.c_str() + p + 1, nullptr, 10); }
        }
        if (c.first == "dl-heuristic") { heuristic = c.second; }
        if (c.first == "compute-components") { ref.cc = c.second != "no"; }
    }
}

void Explorer::fail_(char const *kind, std::string const &msg) {
    throw Violation(kind, msg + " [history:" + [&] { std::string p; for (auto &x : path) { p += " " + x; } return p; }() + "]");
}

std::string Explorer::state_(Solver const &s) const {
    std::string r = "true literals:";
    for (auto l : s.trail) { r += " " + std::to_string(l) + "@" + std::to_string(s.var_level(l)); }
    return r;
}

std::vector<REdge> Explorer::true_edges_(Solver const &s) const {
    std::vector<REdge> te;
    for (auto const &e : ref.edges) { if (s.is_true(e.lit)) { te.push_back(e); } }
    return te;
}

void Explorer::on_clause(Solver &s, Clause const &c) {
    res.add("clauses");
    bool all_true = true;
    for (auto l : c) { all_true = all_true && s.is_false(l); }
    ++(all_true ? cycle_clauses : prop_clauses);
    if ((oracles & O_ROOT) && !all_true && budget == 0 && (mode == "no" || mode == "inverse") && static_cast<long>(s.level()) >= root) {
        // above the limit only the configured mode applies
        res.add("limit_obligations");
        std::set<lit_t> d(c.begin(), c.end());
        if (mode == "no" || d.size() > 2) {
            std::string cs;
            for (auto l : c) { cs += " " + std::to_string(l); }
            fail_("beyond-root", "clause {" + cs + " } was propagated on level " + std::to_string(s.level()) + " not below the root limit; " + state_(s));
        }
    }
    if (!(oracles & O_CLAUSE)) { return; }
    if (!ref.complex_cons.empty()) { return; } // decided by comparing the accepted assignments
    Clause key = c;
    std::sort(key.begin(), key.end());
    auto it = clause_memo.find(key);
    if (it != clause_memo.end() && it->second) { return; }
    std::vector<REdge> es;
    for (auto const &e : ref.edges) {
        bool in = s.is_true(e.lit) && s.var_level(e.lit) == 0;
        for (auto l : c) { in = in || l == -e.lit; }
        if (in) { es.push_back(e); }
    }
    bool ok = has_negative_cycle(es, ref.nv + 1);
    for (auto l : c) { for (auto k : c) { ok = ok || l == -k; } }
    clause_memo[key] = ok;
    if (!ok) {
        std::string cs;
        for (auto l : c) { cs += " " + std::to_string(l); }
        fail_("clause", "clause {" + cs + " } is not entailed by the constraints; " + state_(s));
    }
}

void Explorer::on_deliver(Solver &s, std::vector<lit_t> const &c) {
    if (!(oracles & O_STAT)) { return; }
    std::vector<REdge> added;
    for (auto l : c) {
        for (auto &e : ref.edges) { if (e.lit == l && e.u != e.v) { added.push_back(e); } }
    }
    expected_added += added.size();
    simulate_(s, c);
    if (added.size() > 1) { skipped_known = false; } // depends on the order in which the edges are added
    if (added.size() != 1 || !skipped_known) { return; }
    std::set<lit_t> now(c.begin(), c.end());
    std::vector<REdge> done;
    for (auto &li : s.levels) {
        for (auto l : li.delivered) {
            if (now.count(l) > 0) { continue; }
            for (auto &e : ref.edges) { if (e.lit == l && e.u != e.v) { done.push_back(e); } }
        }
    }
    if (part_lo.comp != part_hi.comp) { skipped_known = false; return; }
    // an edge that the values admit already requires no work
    auto zero = [&](REdge e) {
        int c = part_lo.comp[e.u != 0 ? e.u : e.v];
        if (e.u == 0) { e.u = ref.nv + 1 + c; }
        if (e.v == 0) { e.v = ref.nv + 1 + c; }
        return e;
    };
    for (auto &e : done) { e = zero(e); }
    auto a = zero(added.front());
    auto val = least_solution(done, ref.nv + 1 + std::max(1, part_lo.ncomp));
    expected_skipped += val[a.u] - val[a.v] <= a.w ? 1 : 0;
}

void Explorer::point(Solver &s, char const *what) {
    // the callback is left early after a conflict
    if ((s.conflict || s.pending) && std::strstr(what, "return") != nullptr) { ++cycle_clauses; }
}

void Explorer::simulate_(Solver const &s, std::vector<lit_t> const &c) {
    // Zero and full propagation determine which edges become redundant or false: all remaining edges are examined
    // after each addition. The counters follow from the sequence of deliveries unless one delivery adds several edges.
    if ((mode != "full" && mode != "zero") || root > 0 || budget > 0 || !sim.known) { return; }
    if (part_lo.comp != part_hi.comp || ref.incl_lo != ref.incl_hi || !ref.complex_cons.empty()) { sim.known = false; return; }
    std::vector<lit_t> flat;
    for (auto &li : s.levels) { flat.insert(flat.end(), li.delivered.begin(), li.delivered.end()); }
    // drop the deliveries that have been retracted
    size_t keep = 0, pos = 0;
    while (keep < sim.groups.size() && pos + sim.groups[keep].size() <= flat.size() && std::equal(sim.groups[keep].begin(), sim.groups[keep].end(), flat.begin() + pos)) { pos += sim.groups[keep++].size(); }
    sim.groups.resize(keep);
    if (pos + c.size() != flat.size()) { sim.known = false; return; }
    sim.groups.push_back(c);
    int n = ref.nv + 1 + std::max(1, part_lo.ncomp);
    std::vector<REdge> es;
    std::vector<char> enabled;
    for (size_t i = 0; i < ref.edges.size(); ++i) {
        auto e = ref.edges[i];
        if (e.u == e.v || !ref.incl_lo[i]) { continue; }
        int k = part_lo.comp[e.u != 0 ? e.u : e.v];
        if (e.u == 0) { e.u = ref.nv + 1 + k; }
        if (e.v == 0) { e.v = ref.nv + 1 + k; }
        es.push_back(e);
        enabled.push_back(1);
    }
    std::vector<REdge> in;
    for (auto &g : sim.groups) {
        bool last = &g == &sim.groups.back();
        std::set<lit_t> lits(g.begin(), g.end());
        std::vector<size_t> add;
        for (size_t i = 0; i < es.size(); ++i) {
            if (mode == "full" && lits.count(-es[i].lit) > 0) { enabled[i] = 0; }
        }
        for (size_t i = 0; i < es.size(); ++i) {
            if (enabled[i] && lits.count(es[i].lit) > 0) { add.push_back(i); }
        }
        if (add.size() > 1) { sim.known = false; return; }
        if (add.empty()) { continue; }
        enabled[add.front()] = 0;
        in.push_back(es[add.front()]);
        auto d = floyd(in, n);
        double yes = 0, no = 0;
        for (size_t i = 0; i < es.size(); ++i) {
            if (!enabled[i]) { continue; }
            auto &e = es[i];
            int z = ref.nv + 1 + part_lo.comp[e.u <= ref.nv ? e.u : e.v <= ref.nv ? e.v : 1];
            double uv = mode == "full" ? d[e.u][e.v] : d[e.u][z] + d[z][e.v];
            double vu = mode == "full" ? d[e.v][e.u] : d[e.v][z] + d[z][e.u];
            if (uv <= e.w) { ++yes; enabled[i] = 0; }
            else if (vu + e.w < 0) { ++no; enabled[i] = 0; }
        }
        if (last) {
            sim.propagated += 1;
            sim.yes += yes;
            sim.no += no;
        }
    }
}

void Explorer::on_init_clause(mock::Problem &p, Clause const &c) {
    res.add("init_clauses");
    bool aux = false;
    for (auto l : c) { for (auto a : p.aux) { aux = aux || a == std::abs(l); } }
    if (aux) { return; }
    init_clauses.push_back(c);
    if (!(oracles & (O_CLAUSE | O_MUTEX)) || !ref.complex_cons.empty()) { return; }
    auto &s = *p.solvers[0];
    if ((oracles & O_MUTEX) && mutex_size > 0) {
        std::set<lit_t> free;
        for (auto l : c) { if (!s.is_false(l)) { free.insert(l); } }
        if (free.size() > std::max<uint64_t>(mutex_size, 1)) {
            fail_("mutex-size", "a clause with " + std::to_string(free.size()) + " undecided literals was added for size limit " + std::to_string(mutex_size));
        }
    }
    std::vector<REdge> es;
    for (auto const &e : ref.edges) {
        bool in = s.is_true(e.lit);
        for (auto l : c) { in = in || l == -e.lit; }
        if (in) { es.push_back(e); }
    }
    bool ok = has_negative_cycle(es, ref.nv + 1);
    for (auto l : c) { for (auto k : c) { ok = ok || l == -k; } ok = ok || s.is_true(l); }
    // clauses about literals equal by construction (body/head duplicates) are tautologies handled above
    if (!ok) {
        std::string cs;
        for (auto l : c) { cs += " " + std::to_string(l); }
        fail_("init-clause", "clause {" + cs + " } added during initialization is not entailed");
    }
}

Limits Limits::parse(std::string const &extra) {
    Limits l;
    std::istringstream in(extra);
    std::string t;
    while (in >> t) {
        auto p = t.find('=');
        std::string k = t.substr(0, p), v = p == std::string::npos ? "1" : t.substr(p + 1);
        if (k == "kind") { l.kind = v; }
        else if (k == "orders") { l.all_orders = v != "0"; }
        else if (k == "free") { l.max_free_orders = std::stoi(v); }
        else if (k == "neg") { l.max_neg = std::stoi(v); }
        else if (k == "depth") { l.depth = std::stoi(v); }
        else if (k == "jump") { l.jump = v != "0"; }
        else if (k == "or") { l.oracles = std::stoul(v); }
    }
    return l;
}

std::string Limits::str() const {
    std::ostringstream o;
    o << "kind=" << kind << " orders=" << all_orders << " free=" << max_free_orders << " neg=" << max_neg << " depth=" << depth
      << " jump=" << jump << " or=" << oracles;
    return o.str();
}

bool Explorer::backjump_asserting(Solver &, Clause const &, uint32_t) { return ok_jump; }

void Explorer::check_values_(Solver &s, std::vector<REdge> const &te) {
    if (!ref.complex_cons.empty()) { return; }
    auto vals = sys->values(s.tid, ref.nv);
    auto show = [&](std::vector<std::optional<double>> const &v) {
        std::string r;
        for (int i = 1; i <= ref.nv; ++i) { r += " v" + std::to_string(i) + "=" + (v[i] ? std::to_string(*v[i]) : "none"); }
        return r;
    };
    double tol = sc.rdl ? 1e-7 : 0;
    auto eq = [&](std::vector<std::optional<double>> const &a, std::vector<std::optional<double>> const &b) {
        for (int i = 1; i <= ref.nv; ++i) {
            if (a[i].has_value() != b[i].has_value()) { return false; }
            if (a[i] && std::fabs(*a[i] - *b[i]) > tol) { return false; }
        }
        return true;
    };
    if (oracles & O_CONS) {
        for (auto const &e : te) {
            if (e.u == e.v) { continue; }
            double a = e.u == 0 ? 0 : (vals[e.u] ? *vals[e.u] : NONE);
            double b = e.v == 0 ? 0 : (vals[e.v] ? *vals[e.v] : NONE);
            if (a == NONE || b == NONE || !(a - b <= e.w + tol)) {
                fail_("violated", "reported values" + show(vals) + " violate the true constraint v" + std::to_string(e.u) + " - v" +
                                      std::to_string(e.v) + " <= " + std::to_string(e.w) + "; " + state_(s));
            }
        }
    }
    if (oracles & O_VALUE) {
        auto c1 = ref.canonical(te, part_lo);
        if (!eq(vals, c1) && !eq(vals, ref.canonical(te, part_hi))) {
            fail_("value", "reported" + show(vals) + " but the least solution is" + show(c1) + "; " + state_(s));
        }
    }
    uint64_t h = 1469598103934665603ULL;
    for (int i = 1; i <= ref.nv; ++i) { h = hash_mix(h, vals[i] ? static_cast<uint64_t>(std::llround(*vals[i] * 1000) + 7) : 3); }
    res.outcome(h);
}

void Explorer::check_api_(Solver &s, bool leaf) {
    auto *t = sys->theory;
    std::map<clingo_symbol_t, double> iter;
    size_t idx = 0;
    clingodl_assignment_begin(t, s.tid, &idx);
    int guard = 0;
    while (clingodl_assignment_next(t, s.tid, &idx)) {
        if (++guard > 1000) { fail_("api", "assignment iteration does not end"); }
        if (!clingodl_assignment_has_value(t, s.tid, idx)) { fail_("api", "iteration visits an index without value"); }
        auto sym = clingodl_get_symbol(t, idx);
        clingodl_value_t v;
        clingodl_assignment_get_value(t, s.tid, idx, &v);
        if ((v.type == clingodl_value_type_double) != sc.rdl) { fail_("api", "wrong value type"); }
        if (!iter.emplace(sym, v.type == clingodl_value_type_int ? v.int_number : v.double_number).second) {
            fail_("api", "iteration visits a symbol twice");
        }
        size_t idx2 = 0;
        if (!clingodl_lookup_symbol(t, sym, &idx2) || idx2 != idx) { fail_("api", "lookup does not invert get_symbol"); }
    }
    auto vals = sys->values(s.tid, ref.nv);
    size_t cnt = 0;
    for (int i = 1; i <= ref.nv; ++i) {
        auto it = iter.find(var_symbol(i));
        if ((it != iter.end()) != vals[i].has_value() || (vals[i] && it->second != *vals[i])) {
            fail_("api", "iteration and lookup disagree on v" + std::to_string(i));
        }
        cnt += vals[i].has_value() ? 1 : 0;
    }
    if (cnt != iter.size()) { fail_("api", "iteration visits symbols that are not variables of the program"); }
    size_t z = 0;
    if (clingodl_lookup_symbol(t, var_symbol(0), &z) && clingodl_assignment_has_value(t, s.tid, z)) {
        fail_("api", "the constant 0 has a value");
    }
    clingo_symbol_t unk;
    clingo_symbol_create_id("unknown_symbol", true, &unk);
    size_t u = 0;
    if (clingodl_lookup_symbol(t, unk, &u)) { fail_("api", "unknown symbol found"); }
    if (leaf) {
        mock::Model m{s.tid, {}};
        if (!clingodl_on_model(t, reinterpret_cast<clingo_model_t *>(&m))) { fail_("api", "on_model failed"); }
        if (m.symbols.size() != iter.size()) { fail_("api", "model extended by a different number of symbols than iterated"); }
        std::set<clingo_symbol_t> seen;
        for (auto sym : m.symbols) {
            char const *name;
            clingo_symbol_t const *args;
            size_t n;
            if (clingo_symbol_type(sym) != clingo_symbol_type_function) { fail_("api", "model symbol is no function"); }
            clingo_symbol_name(sym, &name);
            clingo_symbol_arguments(sym, &args, &n);
            if (strcmp(name, "dl") != 0 || n != 2) { fail_("api", "model symbol is not dl/2"); }
            auto it = iter.find(args[0]);
            if (it == iter.end() || !seen.insert(args[0]).second) { fail_("api", "model has a symbol for a variable without value"); }
            if (sc.rdl) {
                char const *str;
                if (!clingo_symbol_string(args[1], &str) || std::fabs(atof(str) - it->second) > 1e-6) { fail_("api", "wrong value in model"); }
            } else {
                int v;
                if (!clingo_symbol_number(args[1], &v) || v != it->second) { fail_("api", "wrong value in model"); }
            }
        }
        res.add("models");
    }
    res.add("api_checks");
}

void Explorer::check_decide_(Solver &s) {
    auto &prop = sys->prob->prop;
    if (prop.decide == nullptr) {
        if (heuristic == "min" || heuristic == "max") { fail_("decide", "no decide callback although the heuristic is enabled"); }
        return;
    }
    auto vals = sys->values(s.tid, ref.nv);
    // without true constraints over the constant 0, values are absolute and variables without value count as 0
    bool absolute = ref.complex_cons.empty();
    for (auto &e : ref.edges) { absolute = absolute && ((e.u != 0 && e.v != 0) || !s.is_true(e.lit)); }
    for (int v = 2; v <= static_cast<int>(sys->prob->nvars); ++v) {
        if (s.value(v) != 0) { continue; }
        // literals of constraints that are represented by several inequalities
        bool complex = !ref.complex_cons.empty() && is_aux[v];
        for (auto &c : ref.complex_cons) { complex = complex || std::abs(c.lit) == v; }
        for (int sg : {1, -1}) {
            lit_t fb = v * sg;
            lit_t out = 0;
            bool ok = prop.decide(s.tid, reinterpret_cast<clingo_assignment_t *>(&s), fb, sys->prob->prop_data, &out);
            res.add("decisions");
            if (!ok) { fail_("decide", "decide callback failed"); }
            if (out != fb && out != -fb) { fail_("decide", "decision " + std::to_string(out) + " for proposal " + std::to_string(fb)); }
            if (heuristic != "min" && heuristic != "max") {
                if (out != fb) { fail_("decide", "decision changed although the heuristic is disabled"); }
                continue;
            }
            if (complex) { continue; }
            // violated(l): does some / do all constraints under l fail under the current values
            auto status = [&](lit_t l, bool &any, bool &all, int &cnt) {
                any = false; all = true; cnt = 0;
                for (auto &e : ref.edges) {
                    if (e.lit != l) { continue; }
                    ++cnt;
                    auto val = [&](int i, int o) {
                        // absolute potentials: the value relative to the common zero of the component is
                        // enough since both endpoints shift alike; unvalued vertices count as 0
                        if (i == 0) { (void)o; return 0.0; }
                        return vals[i] ? *vals[i] : absolute ? 0.0 : NONE;
                    };
                    double a = val(e.u, e.v), b = val(e.v, e.u);
                    if (a == NONE || b == NONE) { cnt = -1000; return; } // not determined by reported values
                    bool neg = a - b > e.w;
                    any = any || neg;
                    all = all && neg;
                }
            };
            bool any1, all1, any2, all2;
            int c1, c2;
            status(fb, any1, all1, c1);
            status(-fb, any2, all2, c2);
            if (c1 < 0 || c2 < 0) { continue; }
            if (c1 == 0 && c2 == 0) {
                if (out != fb) { fail_("decide", "decision on an unrelated literal changed"); }
                continue;
            }
            if (c1 > 1 || c2 > 1) { continue; }
            bool mn = heuristic == "min";
            if (c1 == 1 && c2 == 0) {
                lit_t want = mn ? (any1 ? -fb : fb) : (any1 ? fb : -fb);
                if (out != want) { fail_("decide", "heuristic " + heuristic + " chose " + std::to_string(out) + " for proposal " + std::to_string(fb) + "; " + state_(s)); }
                res.add("decisions_determined");
            } else if (c1 == 0 && c2 == 1) {
                lit_t want = mn ? (any2 ? fb : -fb) : (any2 ? -fb : fb);
                if (out != want) { fail_("decide", "heuristic " + heuristic + " chose " + std::to_string(out) + " for proposal " + std::to_string(fb) + "; " + state_(s)); }
                res.add("decisions_determined");
            } else if (c1 == 1 && c2 == 1 && any1 != any2) {
                // exactly one side is violated
                lit_t bad = any1 ? fb : -fb;
                lit_t want = mn ? -bad : bad;
                if (out != want) { fail_("decide", "heuristic " + heuristic + " chose " + std::to_string(out) + " for proposal " + std::to_string(fb) + "; " + state_(s)); }
                res.add("decisions_determined");
            }
        }
    }
}

void Explorer::node_(Solver &s) {
    res.add("states");
    auto te = true_edges_(s);
    int n = ref.nv + 1;
    bool simple = ref.complex_cons.empty();
    if (simple && (oracles & O_CONS) && has_negative_cycle(te, n)) {
        fail_("inconsistent", "no conflict although the true constraints are inconsistent; " + state_(s));
    }
    if (simple && has_negative_cycle(te, n)) { return; }
    if (oracles & (O_CONS | O_VALUE)) { check_values_(s, te); }
    if (simple) {
        bool full = (oracles & O_FULL) && mode == "full";
        if ((oracles & O_ROOT) && (mode == "full" || static_cast<long>(s.level()) < root || within_budget)) { full = true; }
        if (full) {
            auto d = floyd(te, n);
            for (auto &e : ref.edges) {
                if (s.value(e.lit) == 0) {
                    res.add("completeness_obligations");
                    if (e.u != e.v && d[e.v][e.u] + e.w < 0) {
                        fail_("incomplete-full", "constraint v" + std::to_string(e.u) + " - v" + std::to_string(e.v) + " <= " + std::to_string(e.w) +
                                                     " (literal " + std::to_string(e.lit) + ") closes a negative cycle but is not false; " + state_(s));
                    }
                }
            }
        }
        if ((oracles & O_ZERO) && mode == "zero") {
            auto d = floyd(te, n);
            for (auto &e : ref.edges) {
                if (s.value(e.lit) == 0 && e.u != e.v) {
                    res.add("completeness_obligations");
                    if (d[e.v][0] + d[0][e.u] + e.w < 0) {
                        // through the zero of the component of the edge: restrict the distances to it
                        fail_("incomplete-zero", "constraint v" + std::to_string(e.u) + " - v" + std::to_string(e.v) + " <= " + std::to_string(e.w) +
                                                     " (literal " + std::to_string(e.lit) + ") closes a negative cycle through 0 but is not false; " + state_(s));
                    }
                }
            }
        }
        if ((oracles & O_INV) && mode != "no" && mode != "zero") {
            for (auto &e : ref.edges) {
                if (s.value(e.lit) != 0 || e.u == e.v) { continue; }
                for (auto &f : te) {
                    if (f.u == e.v && f.v == e.u) {
                        res.add("completeness_obligations");
                        if (e.w + f.w < 0) {
                            fail_("incomplete-inverse", "constraint v" + std::to_string(e.u) + " - v" + std::to_string(e.v) + " <= " + std::to_string(e.w) +
                                                            " (literal " + std::to_string(e.lit) + ") contradicts a true inverse constraint but is not false; " + state_(s));
                        }
                    }
                }
            }
        }
    }
    if (oracles & O_API) { check_api_(s, false); }
    if (oracles & O_DECIDE) { check_decide_(s); }
}

void Explorer::leaf_(Solver &s) {
    res.add("leaves");
    if (oracles & O_API) { check_api_(s, true); }
    std::vector<int8_t> prog(s.val.begin() + 1, s.val.begin() + 1 + sys->prob->nvars);
    if (full_leaves.insert(prog).second) {
        std::vector<int8_t> proj;
        for (size_t v = 1; v <= sys->prob->nvars; ++v) { if (!is_aux[v]) { proj.push_back(s.val[v]); } }
        auto vals = sys->values(s.tid, ref.nv);
        std::vector<double> vv;
        for (int i = 1; i <= ref.nv; ++i) { vv.push_back(vals[i] ? *vals[i] : NONE); }
        auto &ms = leaves[proj];
        if (ref.complex_cons.empty()) { if (ms.empty()) { ms.insert(vv); } }
        else { ms.insert(vv); }
    }
}

bool Explorer::dfs_(Solver &s, int neg) {
    // Precondition: conflict-free fixpoint. Returns false if the solver has to backtrack below this level.
    node_(s);
    if (s.total()) {
        leaf_(s);
        return true;
    }
    uint32_t level = s.level();
    int free = 0;
    for (size_t v = 2; v <= sys->prob->nvars; ++v) { free += s.val[v] == 0 ? 1 : 0; }
    bool all = lim.all_orders && free <= lim.max_free_orders && ref.complex_cons.empty();
    for (size_t v = 2; v <= sys->prob->nvars; ++v) {
        for (int sg : {1, -1}) {
            if (s.val[v] != 0 || (sg < 0 && lim.max_neg >= 0 && neg >= lim.max_neg)) { continue; }
            lit_t l = static_cast<lit_t>(v) * sg;
            path.push_back(std::to_string(l));
            res.add("transitions");
            bool ok = s.decide(l);
            check_error_(s);
            if (ok) { dfs_(s, neg + (sg < 0 ? 1 : 0)); }
            else { res.add("conflicts"); }
            bool pend = s.pending;
            auto pc = s.pending_clause;
            s.backtrack(level);
            path.back() = "undo" + std::to_string(l);
            if (pend) { s.learnt.push_back(pc); }
            if (!s.learnt.empty()) {
                // retained clauses may have become unit at this level
                if (!s.fixpoint()) {
                    check_error_(s);
                    res.add("late_conflicts");
                    path.pop_back();
                    return false;
                }
                check_error_(s);
            }
            node_(s); // the state after undo must again satisfy every oracle
            path.pop_back();
            if (s.total()) {
                // implied literals completed the assignment
                leaf_(s);
                return true;
            }
            if (!all && s.val[v] == 0 && (sg < 0 || (lim.max_neg >= 0 && neg >= lim.max_neg))) { return true; } // both values explored
        }
    }
    return true;
}

void Explorer::check_error_(Solver &s) {
    if (!sys->prob->error.empty()) { fail_("callback", sys->prob->error + "; " + state_(s)); }
}

bool Explorer::init_step_(size_t i) {
    auto &st = sc.steps[i];
    cur_step = i;
    auto &prob = *sys->prob;
    // literals of later steps follow the auxiliary literals of earlier ones
    for (int k = 0; k < st.nlits; ++k) { lmap.push_back(static_cast<lit_t>(prob.nvars) + 1 + k); }
    auto tr = [&](lit_t &l) { l = l > 0 ? lmap.at(l) : -lmap.at(-l); };
    for (auto &c : st.cons) { tr(c.lit); }
    for (auto &c : st.clauses) { for (auto &l : c) { tr(l); } }
    for (auto &l : st.assume) { tr(l); }
    sys->add_step(sc, st);
    nprog = prob.nvars;
    is_aux.resize(prob.nvars + 1, 0);
    bool pre = !prob.top_conflict;
    if (pre) { for (auto &s : prob.solvers) { pre = pre && s->unit_propagate(); } }
    ref.add(sc, st, *prob.solvers[0]);
    clause_memo.clear();
    init_clauses.clear();
    std::vector<int8_t> before = prob.solvers[0]->val;
    bool ok = pre && prob.init();
    if (!pre) { prob.top_conflict = true; }
    if (!prob.error.empty()) { fail_("callback", prob.error); }
    is_aux.resize(prob.nvars + 1, 1);
    ref.after_init(*prob.solvers[0]);
    part_lo = ref.components(true);
    part_hi = ref.components(false);
    if (ok) { check_init_(i, before); }
    return ok;
}

void Explorer::check_init_(size_t step, std::vector<int8_t> const &before) {
    auto &prob = *sys->prob;
    auto &s = *prob.solvers[0];
    if (oracles & O_CC) {
        mock::Stats st, ac;
        if (!clingodl_on_statistics(sys->theory, reinterpret_cast<clingo_statistics_t *>(&st), reinterpret_cast<clingo_statistics_t *>(&ac))) {
            fail_("callback", "on_statistics failed");
        }
        auto const *n = st.find({"DifferenceLogic", "CCs"});
        if (n == nullptr) { fail_("components", "number of components is not reported"); }
        auto count = [&](Reference::Part const &p) {
            std::set<int> c;
            for (int i = 1; i <= ref.nv; ++i) { if (ref.used.count(i)) { c.insert(p.comp[i]); } }
            return static_cast<double>(c.size());
        };
        res.add("component_checks");
        if (ref.cc && n->value != count(part_lo) && n->value != count(part_hi)) {
            fail_("components", "step " + std::to_string(step) + ": " + std::to_string(n->value) + " components reported, the constraint graph has " + std::to_string(count(part_lo)));
        }
    }
    if ((oracles & O_MUTEX) && mutex_size >= 1 && mutex_cutoff >= 1000 && ref.complex_cons.empty() && part_lo.comp == part_hi.comp) {
        // negative cycles with few enough open literals are excluded
        auto known = [&](lit_t l) { return static_cast<size_t>(std::abs(l)) < before.size(); };
        auto value = [&](lit_t l) { int v = known(l) ? before[std::abs(l)] : 0; return l < 0 ? -v : v; };
        auto const &es = ref.edges;
        auto node = [&](REdge const &e, int v) { return v != 0 ? v : -1 - part_lo.comp[e.u != 0 ? e.u : e.v]; };
        std::vector<size_t> cyc;
        std::set<int> seen;
        auto check = [&](double w) {
            if (w >= 0) { return; }
            std::set<lit_t> open;
            size_t last = 0;
            for (auto i : cyc) {
                if (value(es[i].lit) == 0) {
                    if (s.is_true(es[i].lit)) { return; }
                    open.insert(es[i].lit);
                    last = std::max(last, i);
                }
            }
            if (open.empty() || last < ref.step_start || value(es[last].lit) != 0) { return; }
            for (auto l : open) { if (open.count(-l) > 0) { return; } }
            if (open.size() > mutex_size || (cyc.size() > 2 && open.size() == mutex_size)) { return; }
            res.add("cycle_obligations");
            bool found = false;
            for (auto l : open) { found = found || s.is_false(l); }
            for (auto &c : init_clauses) {
                bool sub = true;
                for (auto l : c) { sub = sub && (open.count(-l) > 0 || s.is_false(l)); }
                found = found || sub;
            }
            if (!found) {
                std::string str;
                for (auto l : open) { str += " " + std::to_string(l); }
                fail_("mutex-missing", "no clause excludes the literals" + str + " of a cycle of " + std::to_string(cyc.size()) + " edges");
            }
        };
        std::function<void(int, int, double)> rec = [&](int start, int at, double w) {
            for (size_t i = 0; i < es.size(); ++i) {
                auto &e = es[i];
                if (e.u == e.v || i < cyc.front() || node(e, e.u) != at || value(e.lit) < 0 || std::count(cyc.begin(), cyc.end(), i) > 0) { continue; }
                int to = node(e, e.v);
                if (to == start) {
                    cyc.push_back(i);
                    check(w + e.w);
                    cyc.pop_back();
                } else if (seen.insert(to).second) {
                    cyc.push_back(i);
                    rec(start, to, w + e.w);
                    cyc.pop_back();
                    seen.erase(to);
                }
            }
        };
        if (es.size() <= 6) {
            for (size_t i = 0; i < es.size(); ++i) {
                auto &e = es[i];
                if (e.u == e.v || value(e.lit) < 0) { continue; }
                cyc = {i};
                seen = {node(e, e.u), node(e, e.v)};
                rec(node(e, e.u), node(e, e.v), e.w);
            }
        }
    }
    if ((oracles & O_MUTEX) && mutex_size >= 2 && mutex_cutoff >= 1000 && ref.complex_cons.empty()) {
        auto free = [&](lit_t l) { return static_cast<size_t>(std::abs(l)) < before.size() && before[std::abs(l)] == 0; };
        for (size_t i = ref.step_start; i < ref.edges.size(); ++i) {
            for (size_t j = 0; j < i; ++j) {
                auto &e = ref.edges[i];
                auto &f = ref.edges[j];
                if (e.u != f.v || e.v != f.u || e.u == e.v || e.w + f.w >= 0 || !free(e.lit) || !free(f.lit) || e.lit == -f.lit) { continue; }
                res.add("mutex_obligations");
                bool found = s.is_false(e.lit) || s.is_false(f.lit);
                for (auto &c : init_clauses) {
                    bool sub = true;
                    for (auto l : c) { sub = sub && (l == -e.lit || l == -f.lit || s.is_false(l)); }
                    found = found || sub;
                }
                if (!found) {
                    fail_("mutex-missing", "no clause excludes the contradicting literals " + std::to_string(e.lit) + " and " + std::to_string(f.lit));
                }
            }
        }
    }
}

void Explorer::check_stats_(size_t step) {
    auto &prob = *sys->prob;
    mock::Stats st, ac;
    if (!clingodl_on_statistics(sys->theory, reinterpret_cast<clingo_statistics_t *>(&st), reinterpret_cast<clingo_statistics_t *>(&ac))) {
        fail_("callback", "on_statistics failed");
    }
    res.add("statistics_checks");
    static std::vector<std::string> const counters{"True edges", "False edges", "False edges (inverse)", "False edges (partial)", "False edges (partial+)",
                                                   "Edges added", "Edges skipped", "Edges propagated", "Cost consistency", "Cost forward", "Cost backward"};
    auto get = [&](mock::Stats &s, std::vector<std::string> const &path) {
        auto const *n = s.find(path);
        if (n == nullptr) { fail_("statistics", "value " + path.back() + " is missing in step " + std::to_string(step)); }
        return n->value;
    };
    auto cmp = [&](std::string const &what, double got, double want) {
        if (got != want) {
            fail_("statistics", "step " + std::to_string(step) + ": " + what + " is " + std::to_string(got) + " but should be " + std::to_string(want));
        }
    };
    if (!prob.top_conflict) {
        size_t edges = 0;
        for (size_t i = 0; i < ref.edges.size(); ++i) { edges += ref.edges[i].u != ref.edges[i].v && ref.incl_lo[i] ? 1 : 0; }
        if (ref.complex_cons.empty()) { cmp("Edges", get(st, {"DifferenceLogic", "Edges"}), edges); }
        double vars = get(st, {"DifferenceLogic", "Variables"});
        // the constant 0 is counted once for each component that ever existed
        if (vars != ref.used.size()) {
            max_comp = std::max<size_t>(max_comp, get(st, {"DifferenceLogic", "CCs"}));
            cmp("Variables", vars, ref.used.size() + std::max<size_t>(1, max_comp));
        }
        if (mutex_size > 0 && ref.complex_cons.empty()) { cmp("Mutexes", get(st, {"DifferenceLogic", "Mutexes"}), init_clauses.size()); }
        if (mutex_size == 0) { cmp("Mutexes", get(st, {"DifferenceLogic", "Mutexes"}), 0); }
    }
    for (auto x : {"CCs", "Edges", "Variables"}) { cmp(std::string("accumulated ") + x, get(ac, {"DifferenceLogic", x}), get(st, {"DifferenceLogic", x})); }
    accu_mutexes += get(st, {"DifferenceLogic", "Mutexes"});
    cmp("accumulated Mutexes", get(ac, {"DifferenceLogic", "Mutexes"}), accu_mutexes);
    auto nthreads = static_cast<size_t>(prob.threads);
    for (size_t t = 0; t < nthreads; ++t) {
        auto ts = std::to_string(t);
        if (st.find({"DifferenceLogic", "Thread", ts}) == nullptr) {
            if (prob.top_conflict) { continue; }
            fail_("statistics", "no statistics for thread " + ts);
        }
        if (accu_stats.size() <= t) { accu_stats.resize(t + 1); }
        double sum_false = 0;
        for (auto &c : counters) {
            double v = get(st, {"DifferenceLogic", "Thread", ts, c});
            accu_stats[t][c] += v;
            if (t != active_(step)) { cmp(c + " of the idle thread " + ts, v, 0); }
            if (c.compare(0, 5, "False") == 0) { sum_false += v; }
        }
        if (t == active_(step)) {
            auto val = [&](char const *c) { return get(st, {"DifferenceLogic", "Thread", ts, c}); };
            bool smooth = cycle_clauses == 0 && !prob.top_conflict && !sc.redeliver && ref.complex_cons.empty();
            bool simple_base = mode == "no" || mode == "inverse" || mode == "partial" || mode == "partial+";
            bool simple_mode = simple_base && root == 0 && budget == 0;
            if (smooth && simple_mode) { cmp("Edges added", val("Edges added"), expected_added); res.add("edges_added_checks"); }
            if (smooth && simple_mode && skipped_known) { cmp("Edges skipped", val("Edges skipped"), expected_skipped); res.add("edges_skipped_checks"); }
            if (smooth && (mode == "zero" || mode == "full") && sim.known && root == 0 && budget == 0) {
                res.add("exact_propagation_checks");
                cmp("Edges added", val("Edges added"), sim.propagated);
                cmp("Edges propagated", val("Edges propagated"), sim.propagated);
                cmp("True edges", val("True edges"), sim.yes);
                // the cycle check may find further edges in mode zero
                if (mode == "full" || sum_false < sim.no) { cmp("False edges of all kinds", sum_false, sim.no); }
            }
            if (budget > 0 && root == 0 && simple_base && val("Edges propagated") > budget_limit + val("Cost consistency")) {
                // every full propagation but the last one has used some of the budget
                fail_("statistics", "step " + std::to_string(step) + ": the budget is exceeded: " + std::to_string(val("Edges propagated")) + " edges propagated");
            }
            if (val("Edges skipped") > val("Edges added")) { fail_("statistics", "more edges skipped than added"); }
            // zero and full propagation also count edges that are false already
            if (sum_false < prop_clauses || (simple_mode && sum_false > prop_clauses + cycle_clauses)) { cmp("False edges of all kinds", sum_false, prop_clauses); }
            if (simple_mode) {
                cmp("Edges propagated", val("Edges propagated"), 0);
                cmp("True edges", val("True edges"), 0);
                cmp("False edges", val("False edges"), 0);
            } else if (smooth && mode == "full") {
                cmp("Edges propagated", val("Edges propagated"), val("Edges added"));
            }
            if (mode == "no" && simple_mode) { cmp("False edges of all kinds", sum_false, 0); }
            if ((mode == "partial" || mode == "inverse") && simple_mode) { cmp("False edges (partial+)", val("False edges (partial+)"), 0); }
            if (mode == "inverse" && simple_mode) { cmp("False edges (inverse)", val("False edges (inverse)"), sum_false); }
        }
    }
    for (size_t t = 0; t < accu_stats.size(); ++t) {
        for (auto &c : counters) {
            cmp("accumulated " + c + " of thread " + std::to_string(t), get(ac, {"DifferenceLogic", "Thread", std::to_string(t), c}), accu_stats[t][c]);
        }
    }
    cycle_clauses = prop_clauses = 0;
}

void Explorer::run() {
    sys = std::make_unique<System>(sc, this);
    res.add("scenarios");
    for (size_t i = 0; i < sc.steps.size(); ++i) {
        bool ok_init = init_step_(i);
        auto nsolvers = sys->prob->solvers.size();
        for (size_t t = 0; t < nsolvers; ++t) {
            // statistics: the work is done by one thread in each step
            if ((oracles & O_STAT) && t != active_(i)) { continue; }
            auto &s = *sys->prob->solvers[t];
            bool ok = ok_init;
            leaves.clear();
            full_leaves.clear();
            expected_added = expected_skipped = 0;
            skipped_known = true;
            sim = Sim{};
            sim.known = i == 0; // in later steps the facts are added together
            if (i > 0 && ok) { on_deliver(s, s.levels[0].delivered); } // facts of earlier steps are propagated again
            if (ok) {
                path.clear();
                path.push_back("step" + std::to_string(i) + (nsolvers > 1 ? "/thread" + std::to_string(t) : ""));
                ok = s.fixpoint();
                if (!sys->prob->error.empty()) { fail_("callback", sys->prob->error + "; " + state_(s)); }
                if (!ok) {
                    sys->prob->top_conflict = true;
                } else {
                    bool dead = false;
                    if (sys->prob->multi) {
                        node_(s);
                        dead = !s.decide(0);
                        if (!sys->prob->error.empty()) { fail_("callback", sys->prob->error + "; " + state_(s)); }
                    }
                    if (dead) { fail_("conflict", "conflict without a decision; " + state_(s)); }
                    for (auto a : sc.steps[i].assume) {
                        if (s.is_true(a)) { continue; }
                        if (s.is_false(a)) { dead = true; break; }
                        path.push_back("assume" + std::to_string(a));
                        ok = s.decide(a);
                        if (!sys->prob->error.empty()) { fail_("callback", sys->prob->error + "; " + state_(s)); }
                        if (!ok) { dead = true; break; }
                        node_(s);
                    }
                    if (!dead) { dfs_(s, 0); }
                    s.backtrack(0);
                    if (!s.fixpoint()) { sys->prob->top_conflict = true; }
                    if (!sys->prob->error.empty()) { fail_("callback", sys->prob->error + "; " + state_(s)); }
                }
            }
            if ((oracles & O_LEAF) && lim.max_neg < 0) { check_leaves_(sc.steps[i]); }
        }
        if (oracles & O_STAT) { check_stats_(i); }
        res.add("steps");
    }
    res.add("propagate_calls", sys->prob->n_prop);
    res.add("check_calls", sys->prob->n_check);
    res.add("undo_calls", sys->prob->n_undo);
}

size_t Explorer::active_(size_t step) const { return step % sys->prob->solvers.size(); }

void Explorer::check_leaves_(StepDef const &st) {
    // reference: all total assignments of program literals that satisfy clauses and are consistent
    auto &prob = *sys->prob;
    std::vector<int> vars;
    for (size_t v = 2; v <= prob.nvars; ++v) { if (!is_aux[v]) { vars.push_back(v); } }
    if (vars.size() > 16) { return; }
    std::vector<Clause> cls;
    for (size_t i = 0; i <= cur_step; ++i) { for (auto &c : sc.steps[i].clauses) { cls.push_back(c); } }
    for (auto a : st.assume) { cls.push_back({a}); }
    uint64_t total = 0;
    for (uint64_t m = 0; m < (1ULL << vars.size()); ++m) {
        auto value = [&](lit_t l) {
            int v = std::abs(l);
            bool b = v == 1;
            if (v != 1) { b = (m >> (std::lower_bound(vars.begin(), vars.end(), v) - vars.begin())) & 1; }
            return l > 0 ? b : !b;
        };
        bool sat = true;
        for (auto &c : cls) { bool x = false; for (auto l : c) { x = x || value(l); } sat = sat && x; }
        std::multiset<std::vector<double>> want;
        if (sat) {
            std::vector<REdge> es;
            for (auto &e : ref.edges) { if (value(e.lit)) { es.push_back(e); } }
            // choices for constraints that denote a disjunction
            std::vector<Con> pos, dis;
            for (auto &c : ref.complex_cons) {
                bool t = value(c.lit);
                bool eq = c.op == EQ ? t : !t;
                if (c.op == NE && !c.strict && !t) { continue; }
                (eq ? pos : dis).push_back(c);
            }
            for (auto &c : pos) {
                es.push_back({c.u, c.v, c.w * ref.scale, 0});
                es.push_back({c.v, c.u, -c.w * ref.scale, 0});
            }
            for (uint64_t k = 0; k < (1ULL << dis.size()); ++k) {
                auto fs = es;
                for (size_t j = 0; j < dis.size(); ++j) {
                    double w = dis[j].w * ref.scale;
                    if ((k >> j) & 1) { fs.push_back({dis[j].u, dis[j].v, w - ref.eps, 0}); }
                    else { fs.push_back({dis[j].v, dis[j].u, -w - ref.eps, 0}); }
                }
                if (has_negative_cycle(fs, ref.nv + 1)) { continue; }
                std::vector<double> vv;
                auto val = ref.canonical(fs, part_lo);
                for (int i = 1; i <= ref.nv; ++i) { vv.push_back(val[i] ? *val[i] : NONE); }
                want.insert(vv);
            }
        }
        std::vector<int8_t> key;
        key.push_back(1);
        for (auto v : vars) { key.push_back(value(v) ? 1 : -1); }
        auto it = leaves.find(key);
        std::multiset<std::vector<double>> none;
        auto const &got = it == leaves.end() ? none : it->second;
        auto show = [&](std::multiset<std::vector<double>> const &x) {
            std::string r = "{";
            for (auto &v : x) { r += "("; for (auto d : v) { r += d == NONE ? std::string("none ") : std::to_string(d) + " "; } r += ")"; }
            return r + "}";
        };
        std::string as;
        for (auto v : vars) { as += " " + std::to_string(value(v) ? v : -v); }
        bool simple = ref.complex_cons.empty();
        if (simple ? (got.empty() != want.empty()) : got.size() != want.size()) {
            throw Violation(got.size() < want.size() ? "lost" : "spurious",
                            "step " + std::to_string(cur_step) + ": assignment" + as + (got.size() < want.size() ? " lost" : " wrongly accepted or duplicated") +
                                "; accepted with values " + show(got) + ", reference " + show(want));
        }
        if (!simple && (oracles & O_VALUE)) {
            bool same = got.size() == want.size();
            auto a = got.begin();
            for (auto b = want.begin(); same && b != want.end(); ++a, ++b) {
                for (size_t i = 0; i < b->size(); ++i) { same = same && std::fabs((*a)[i] - (*b)[i]) < 1e-7; }
            }
            if (!same) { throw Violation("value", "step " + std::to_string(cur_step) + ": assignment" + as + " reported with values " + show(got) + ", reference " + show(want)); }
        }
        total += got.size();
        if (it != leaves.end()) { leaves.erase(it); }
        res.add("assignments_compared");
    }
    if (!leaves.empty()) {
        throw Violation("spurious", "step " + std::to_string(cur_step) + ": an accepted assignment is not a reference assignment");
    }
    res.add("answers", total);
}

} // namespace core
