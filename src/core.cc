#include "core.hh"
#include <csignal>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace core {


std::string Scenario::str() const {
    std::ostringstream o;
    o << "cfg";
    for (auto &c : config) { o << " " << c.first << ":" << c.second; }
    o << "|opt " << threads << " " << chunk << " " << forget << " " << redeliver << " " << rdl << " " << scale;
    for (auto &s : steps) {
        o << "|step " << s.nlits << " " << s.cons.size();
        for (auto &c : s.cons) { o << " " << c.u << " " << c.v << " " << c.op << " " << c.w << " " << c.strict << " " << c.lit; }
        o << " " << s.clauses.size();
        for (auto &c : s.clauses) { o << " " << c.size(); for (auto l : c) { o << " " << l; } }
        o << " " << s.assume.size();
        for (auto l : s.assume) { o << " " << l; }
        o << " " << s.threads;
    }
    o << "|extra " << extra;
    return o.str();
}

Scenario Scenario::parse(std::string const &str) {
    Scenario sc;
    std::istringstream all(str);
    std::string part;
    while (std::getline(all, part, '|')) {
        std::istringstream in(part);
        std::string kw;
        in >> kw;
        if (kw == "cfg") {
            std::string kv;
            while (in >> kv) {
                auto p = kv.find(':');
                sc.config.emplace_back(kv.substr(0, p), kv.substr(p + 1));
            }
        } else if (kw == "opt") {
            in >> sc.threads >> sc.chunk >> sc.forget >> sc.redeliver >> sc.rdl >> sc.scale;
        } else if (kw == "step") {
            StepDef s;
            size_t n;
            in >> s.nlits >> n;
            for (size_t i = 0; i < n; ++i) {
                Con c;
                in >> c.u >> c.v >> c.op >> c.w >> c.strict >> c.lit;
                s.cons.push_back(c);
            }
            in >> n;
            for (size_t i = 0; i < n; ++i) {
                size_t m;
                in >> m;
                Clause c(m);
                for (auto &l : c) { in >> l; }
                s.clauses.push_back(c);
            }
            in >> n;
            s.assume.resize(n);
            for (auto &l : s.assume) { in >> l; }
            if (!(in >> s.threads)) { s.threads = 0; }
            sc.steps.push_back(s);
        } else if (kw == "extra") {
            std::getline(in, sc.extra);
            if (!sc.extra.empty() && sc.extra[0] == ' ') { sc.extra.erase(0, 1); }
        }
    }
    return sc;
}

clingo_symbol_t var_symbol(int i) {
    static std::vector<clingo_symbol_t> cache;
    while (static_cast<int>(cache.size()) <= i) {
        clingo_symbol_t s;
        if (cache.empty()) { clingo_symbol_create_number(0, &s); }
        else if (!clingo_symbol_create_id(("v" + std::to_string(cache.size())).c_str(), true, &s)) { abort(); }
        cache.push_back(s);
    }
    return cache[i];
}

int num_vars(Scenario const &sc) {
    int n = 0;
    for (auto &s : sc.steps) { for (auto &c : s.cons) { n = std::max({n, c.u, c.v}); } }
    return n;
}

clingo_id_t add_con(mock::TheoryData &td, Con const &c, bool rdl, double scale) {
    auto var = [&](int i) { return td.sym("v" + std::to_string(i)); };
    clingo_id_t e;
    if (c.u == 0 && c.v == 0) { e = td.num(0); }
    else if (c.u == 0) { e = td.fun("-", {var(c.v)}); }
    else if (c.v == 0) { e = var(c.u); }
    else { e = td.fun("-", {var(c.u), var(c.v)}); }
    clingo_id_t g;
    if (rdl) {
        double w = c.w * scale;
        char buf[64];
        snprintf(buf, sizeof(buf), "\"%.10g\"", w < 0 ? -w : w);
        g = td.sym(buf);
        if (w < 0) { g = td.fun("-", {g}); }
    } else {
        g = td.num(c.w);
    }
    td.atom(c.strict ? "__diff_b" : "__diff_h", {e}, OPS[c.op], g, c.lit);
    return td.atoms.size() - 1;
}

System::System(Scenario const &sc, mock::Observer *obs) : prob{std::make_unique<mock::Problem>()} {
    prob->set_threads(sc.threads);
    prob->chunk = sc.chunk;
    prob->forget = sc.forget;
    prob->redeliver = sc.redeliver;
    prob->multi = sc.steps.size() > 1;
    prob->obs = obs;
    if (!clingodl_create(&theory)) { throw Violation("error", "clingodl_create failed"); }
    if (sc.rdl) {
        if (!clingodl_configure(theory, "rdl", "yes")) { throw Violation("error", "configure rdl failed"); }
    }
    for (auto &c : sc.config) {
        if (!clingodl_configure(theory, c.first.c_str(), c.second.c_str())) {
            throw Violation("error", "clingodl_configure failed for " + c.first + "=" + c.second);
        }
    }
    if (!clingodl_register(theory, prob->ctl())) { throw Violation("error", "clingodl_register failed"); }
    if (!prob->registered) { throw Violation("error", "no propagator registered"); }
}

System::~System() {
    if (theory != nullptr) { clingodl_destroy(theory); }
}

void System::add_step(Scenario const &sc, StepDef const &st) {
    if (st.threads > 0) { prob->set_threads(st.threads); }
    for (int i = 0; i < st.nlits; ++i) { prob->new_var(); }
    prob->data.clear();
    for (auto &c : st.cons) { add_con(prob->data, c, sc.rdl, sc.scale); }
    for (auto &c : st.clauses) { prob->add_static(c); }
}

std::vector<std::optional<double>> System::values(uint32_t tid, int nv) const {
    std::vector<std::optional<double>> ret(nv + 1);
    for (int i = 1; i <= nv; ++i) {
        size_t idx = 0;
        if (clingodl_lookup_symbol(theory, var_symbol(i), &idx) && clingodl_assignment_has_value(theory, tid, idx)) {
            clingodl_value_t v;
            clingodl_assignment_get_value(theory, tid, idx, &v);
            if (v.type == clingodl_value_type_double && v.double_number == 0 && std::signbit(v.double_number)) { throw Violation("value", "the value of v" + std::to_string(i) + " is a negative zero"); }
            ret[i] = v.type == clingodl_value_type_int ? v.int_number : v.double_number;
        }
    }
    return ret;
}

} // namespace core
