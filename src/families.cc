#include "families.hh"

namespace core {

void for_each_graph(int V, int E, std::vector<int> const &weights, std::function<void(GVec const &)> const &fn) {
    GVec all;
    for (int u = 0; u <= V; ++u) {
        for (int v = 0; v <= V; ++v) {
            if (u == v) { continue; }
            for (int w : weights) { all.push_back({u, v, w}); }
        }
    }
    std::sort(all.begin(), all.end());
    std::vector<std::vector<int>> perms;
    std::vector<int> p(V + 1);
    for (int i = 0; i <= V; ++i) { p[i] = i; }
    while (std::next_permutation(p.begin() + 1, p.end())) { perms.push_back(p); }
    GVec cur;
    GVec img(E);
    std::function<void(size_t)> rec = [&](size_t from) {
        if (static_cast<int>(cur.size()) == E) {
            for (auto &q : perms) {
                for (int i = 0; i < E; ++i) { img[i] = {q[cur[i].u], q[cur[i].v], cur[i].w}; }
                std::sort(img.begin(), img.end());
                if (img < cur) { return; }
            }
            fn(cur);
            return;
        }
        for (size_t i = from; i < all.size(); ++i) {
            cur.push_back(all[i]);
            rec(i);
            cur.pop_back();
        }
    };
    rec(0);
}

void for_each_sequence(int V, int E, std::vector<int> const &weights, std::function<void(GVec const &)> const &fn) {
    GVec cur;
    std::function<void(int)> rec = [&](int seen) {
        if (static_cast<int>(cur.size()) == E) {
            fn(cur);
            return;
        }
        for (int u = 0; u <= std::min(V, seen + 1); ++u) {
            int su = std::max(seen, u);
            for (int v = 0; v <= std::min(V, su + 1); ++v) {
                if (u == v) { continue; }
                for (int w : weights) {
                    cur.push_back({u, v, w});
                    rec(std::max(su, v));
                    cur.pop_back();
                }
            }
        }
    };
    rec(0);
}

Scenario make_scenario(GVec const &g, std::string const &pattern) {
    Scenario sc;
    StepDef st;
    int nv = 0;
    lit_t prev = 1, first = 0;
    for (size_t i = 0; i < g.size(); ++i) {
        char c = pattern[i % pattern.size()];
        Con con{g[i].u, g[i].v, LE, g[i].w, false, 0};
        switch (c) {
            case 's': con.lit = prev; break;
            case 'n': con.lit = -prev; break;
            case 'S': con.lit = first; break;
            case 'N': con.lit = -first; break;
            case 'f': con.lit = 1; break;
            default: con.lit = 2 + nv++; break;
        }
        if (c == 'b') { con.strict = true; }
        if (c == 'g') { con.op = GE; std::swap(con.u, con.v); con.w = -con.w; }
        if (c == 'l') { con.op = LT; con.w = con.w + 1; }
        if (c == 'G') { con.op = GT; std::swap(con.u, con.v); con.w = -con.w - 1; }
        prev = con.lit;
        if (i == 0) { first = con.lit; }
        st.cons.push_back(con);
    }
    st.nlits = nv;
    sc.steps.push_back(st);
    return sc;
}

Config cfg(std::string const &s) {
    Config c;
    std::istringstream in(s);
    std::string kv;
    while (in >> kv) {
        auto p = kv.find(':');
        c.emplace_back(kv.substr(0, p), kv.substr(p + 1));
    }
    return c;
}

std::vector<Config> modes() {
    std::vector<Config> r;
    for (auto m : {"no", "inverse", "partial", "partial+", "zero", "full"}) { r.push_back(cfg(std::string("propagate:") + m)); }
    return r;
}

} // namespace core

#include <numeric>

namespace core {

Scenario ordered_scenario(std::vector<Con> const &cons) {
    Scenario sc;
    StepDef st;
    st.cons = cons;
    int n = 0;
    for (auto &c : st.cons) { if (c.lit == 0) { c.lit = 2 + n++; } else if (std::abs(c.lit) > 1) { n = std::max(n, std::abs(c.lit) - 1); } }
    st.nlits = n;
    sc.steps.push_back(st);
    return sc;
}

void for_each_tail(int len, std::vector<std::vector<int>> const &weights, Emit const &fn) {
    for (auto const &w : weights) {
        for (int zero = -1; zero <= len; ++zero) {
            std::vector<int> name(len + 1);
            int next = 1;
            for (int i = 0; i <= len; ++i) { name[i] = i == zero ? 0 : next++; }
            std::vector<Con> base;
            for (int i = 0; i < len; ++i) { base.push_back({name[i], name[(i + 1) % len], LE, w[i % w.size()], false, 0}); }
            base.push_back({name[len], name[0], LE, -2, false, 0});
            std::vector<int> p(base.size());
            std::iota(p.begin(), p.end(), 0);
            do {
                auto c = base;
                for (size_t i = 0; i < c.size(); ++i) { c[i] = base[p[i]]; }
                fn(ordered_scenario(c));
            } while (std::next_permutation(p.begin(), p.end()));
        }
    }
}

void for_each_cycle(int len, std::vector<std::vector<int>> const &weights, bool chord, bool all_perms, Emit const &fn) {
    for (auto const &w : weights) {
        for (int zero = -1; zero < (chord ? 2 : len); ++zero) {
            // vertex names: position zero is the constant 0, others 1..
            std::vector<int> name(len);
            int next = 1;
            for (int i = 0; i < len; ++i) { name[i] = i == zero ? 0 : next++; }
            std::vector<Con> base;
            for (int i = 0; i < len; ++i) { base.push_back({name[i], name[(i + 1) % len], LE, w[i % w.size()], false, 0}); }
            std::vector<std::vector<Con>> variants;
            if (!chord) { variants.push_back(base); }
            else {
                for (int i = 0; i < len; ++i) {
                    for (int j = 0; j < len; ++j) {
                        if (i == j) { continue; }
                        for (int cw : {-2, 0}) {
                            auto v = base;
                            v.push_back({name[i], name[j], LE, cw, false, 0});
                            variants.push_back(v);
                        }
                    }
                }
            }
            for (auto &v : variants) {
                std::vector<int> p(v.size());
                std::iota(p.begin(), p.end(), 0);
                auto emit = [&] {
                    auto c = v;
                    for (size_t i = 0; i < c.size(); ++i) { c[i] = v[p[i]]; }
                    fn(ordered_scenario(c));
                };
                if (all_perms) {
                    do { emit(); } while (std::next_permutation(p.begin(), p.end()));
                } else {
                    // rotations in both directions and interleavings
                    int n = static_cast<int>(p.size());
                    for (int step = 1; step < n; ++step) {
                        if (std::gcd(step, n) != 1) { continue; }
                        for (int s = 0; s < n; ++s) {
                            for (int i = 0; i < n; ++i) { p[i] = (s + i * step) % n; }
                            emit();
                        }
                    }
                }
            }
        }
    }
}

void for_each_fan(int k, int stride, bool zero_source, Emit const &fn) {
    // vertices: x, s, t, z, m_1..m_k; edges x -> s (trigger), s -> m_i, m_i -> t, t -> z
    int x = zero_source ? 0 : 1, s = 2, t = 3, z = 4;
    auto m = [&](int i) { return 5 + i; };
    std::vector<int> p(k);
    std::iota(p.begin(), p.end(), 0);
    int count = 0;
    do {
        if (count++ % stride != 0) { continue; }
        for (int variant = 0; variant < 10; ++variant) {
            std::vector<Con> cs;
            auto e = [&](int a, int b, int w) { cs.push_back({a, b, LE, w, false, 0}); };
            for (int i = 0; i < k; ++i) { e(s, m(i), p[i]); }
            // t gets better the later, the earlier the middle vertex is reached, or all paths are ties
            int v = variant % 3;
            for (int i = 0; i < k; ++i) {
                if (variant >= 8) {
                    // the second closest vertex leads to the shortest path, the closest one almost
                    int w = p[i] == 1 ? 0 : p[i] == 0 ? 2 : 10;
                    e(m(i), t, w - (variant == 8 ? 20 : 40));
                }
                else { e(m(i), t, v == 0 ? -2 * p[i] : v == 1 ? p[i] : -p[i]); }
            }
            e(t, z, 1);
            // the trigger changes all potentials (tight paths) or none (shortest paths with positive costs)
            int trig = variant < 4 ? -20 : 3;
            if (variant == 3 || variant == 7) { e(t, m(0), 1 + p[0]); }
            e(x, s, trig);
            // closing edges: one contradicting, one consistent per pair
            int n = 5 + k;
            std::vector<REdge> es;
            for (auto &c : cs) { es.push_back({c.u, c.v, static_cast<double>(c.w), 0}); }
            auto d = floyd(es, n);
            for (int dst : {t, z, m(0), m(k - 1), m(k / 2)}) {
                for (int src : {x, s}) {
                    if (src == dst) { continue; }
                    int dist = static_cast<int>(d[src][dst]);
                    e(dst, src, -dist - 1);
                    if (dst != m(0)) { e(dst, src, -dist); }
                }
            }
            fn(ordered_scenario(cs));
            for (auto &c : cs) { std::swap(c.u, c.v); }
            fn(ordered_scenario(cs));
        }
    } while (std::next_permutation(p.begin(), p.end()));
}

void for_each_cascade(int k, int stride, bool zero_source, Emit const &fn) {
    // vertices: x, s, t, z, y, m_1..m_k; the potentials of the middle vertices differ because of edges y -> m_i,
    // adding x -> s improves them by different amounts, so that the order of the updates matters
    int x = zero_source ? 0 : 1, s = 2, t = 3, z = 4, y = 5;
    auto m = [&](int i) { return 6 + i; };
    std::vector<int> q(k);
    std::iota(q.begin(), q.end(), 0);
    int count = 0;
    do {
        if (count++ % stride != 0) { continue; }
        for (int variant = 0; variant < 4; ++variant) {
            std::vector<Con> cs;
            auto e = [&](int a, int b, int w) { cs.push_back({a, b, LE, w, false, 0}); };
            for (int i = 0; i < k; ++i) { e(y, m(i), -q[i]); }
            e(y, t, -5);
            for (int i = 0; i < k; ++i) { e(s, m(i), 0); }
            for (int i = 0; i < k; ++i) {
                int w = variant % 2 == 0 ? (q[i] == 1 ? 1 : q[i] == 0 ? 2 : 10) : (q[i] == 2 ? 2 : q[i] == 0 ? 5 : q[i] == 1 ? 4 : 12);
                e(m(i), t, w - 5);
            }
            e(t, z, variant < 2 ? 0 : -1);
            e(x, s, -20);
            int n = 6 + k;
            std::vector<REdge> es;
            for (auto &c : cs) { es.push_back({c.u, c.v, static_cast<double>(c.w), 0}); }
            auto d = floyd(es, n);
            for (int dst : {z, t}) {
                for (int src : {x, s}) {
                    int dist = static_cast<int>(d[src][dst]);
                    e(dst, src, -dist - 1);
                    e(dst, src, -dist);
                }
            }
            fn(ordered_scenario(cs));
            for (auto &c : cs) { std::swap(c.u, c.v); }
            fn(ordered_scenario(cs));
        }
    } while (std::next_permutation(q.begin(), q.end()));
}

void for_each_deep(int k, int stride, bool zero_source, Emit const &fn) {
    // vertices: x, s, q, r, m_1..m_k; edges s -> m_i with distinct weights fill a heap with several levels, the
    // closest m_e improves m_j anywhere in the heap, all lead to q -> r
    int x = zero_source ? 0 : 1, s = 2, q = 3, r = 4;
    auto m = [&](int i) { return 5 + i; };
    int count = 0;
    for (int step : {1, k - 1, 5, 7}) {
        if (std::gcd(step, k) != 1) { continue; }
        for (int j = 0; j < k; ++j) {
            for (int variant = 0; variant < 4; ++variant) {
                if (count++ % stride != 0) { continue; }
                std::vector<Con> cs;
                auto e = [&](int a, int b, int w) { cs.push_back({a, b, LE, w, false, 0}); };
                auto c = [&](int i) { return (i * step + (step == k - 1 ? k - 1 : 0)) % k * 3; };
                int close = 0;
                for (int i = 0; i < k; ++i) {
                    e(s, m(i), c(i));
                    if (c(i) == 0) { close = i; }
                }
                if (close == j) { continue; }
                for (int i = 0; i < k; ++i) {
                    if (i != close) { e(m(i), q, i == j || variant % 2 == 0 ? 1 : 1 + (k - i) % 3); }
                }
                e(m(close), m(j), 1);
                e(q, r, 1);
                e(x, s, variant < 2 ? -4 * k : 3);
                std::vector<REdge> es;
                for (auto &y : cs) { es.push_back({y.u, y.v, static_cast<double>(y.w), 0}); }
                auto d = floyd(es, 5 + k);
                for (int dst : {r, q, m(j)}) {
                    int dist = static_cast<int>(d[x][dst]);
                    e(dst, x, -dist - 1);
                    e(dst, x, -dist);
                }
                fn(ordered_scenario(cs));
                for (auto &y : cs) { std::swap(y.u, y.v); }
                fn(ordered_scenario(cs));
            }
        }
    }
}

void for_each_ladder(int n, bool zero_source, Emit const &fn) {
    // a_0 .. a_n and b_0 .. b_n, source a_0 (or 0), rungs a_i <-> b_i
    for (unsigned mask = 0; mask < (1U << n); ++mask) {
        for (int rung : {0, 1}) {
            for (int order = 0; order < 3; ++order) {
                std::vector<Con> cs;
                auto a = [&](int i) { return zero_source ? (i == 0 ? 0 : i) : i + 1; };
                auto b = [&](int i) { return n + 2 + i; };
                auto e = [&](int u, int v, int w) { cs.push_back({u, v, LE, w, false, 0}); };
                for (int i = 0; i < n; ++i) {
                    bool up = (mask >> i) & 1;
                    e(a(i), a(i + 1), up ? 1 : -1);
                    e(b(i), b(i + 1), up ? -1 : 1);
                }
                for (int i = 0; i <= n; ++i) {
                    e(a(i), b(i), rung);
                    e(b(i), a(i), rung);
                }
                if (order == 1) { std::reverse(cs.begin(), cs.end()); }
                if (order == 2) {
                    std::vector<Con> d;
                    for (size_t i = 0; i < cs.size(); ++i) { d.push_back(cs[(i * 5 + 3) % cs.size()]); }
                    if (cs.size() % 5 == 0) { d = cs; std::swap(d.front(), d.back()); }
                    cs = d;
                }
                // closing edges
                for (int w = 0; w <= n; ++w) { cs.push_back({a(n), a(0), LE, w, false, 0}); }
                cs.push_back({b(n), a(0), LE, n - 1, false, 0});
                fn(ordered_scenario(cs));
            }
        }
    }
}

void for_each_components(int ncomp, std::vector<int> const &weights, int per_comp, Emit const &fn) {
    // each component c has variables x = 2c+1, y = 2c+2; edges are chosen from bounds and inner edges
    std::vector<std::vector<GEdge>> sets;
    GVec all;
    for (int w : weights) {
        for (auto p : std::vector<std::pair<int, int>>{{0, 1}, {1, 0}, {1, 2}, {2, 1}, {2, 0}, {0, 2}}) { all.push_back({p.first, p.second, w}); }
    }
    GVec cur;
    std::function<void(size_t)> rec = [&](size_t from) {
        if (static_cast<int>(cur.size()) == per_comp) {
            bool inner = false, zero = false;
            for (auto &e : cur) { inner = inner || (e.u != 0 && e.v != 0); zero = zero || e.u == 0 || e.v == 0; }
            if (inner && zero) { sets.push_back(cur); }
            return;
        }
        for (size_t i = from; i < all.size(); ++i) { cur.push_back(all[i]); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    std::vector<size_t> idx(ncomp, 0);
    std::function<void(int, size_t)> pick = [&](int c, size_t from) {
        if (c == ncomp) {
            std::vector<Con> cs;
            for (int i = 0; i < per_comp; ++i) {
                for (int k = 0; k < ncomp; ++k) {
                    auto e = sets[idx[k]][i];
                    cs.push_back({e.u == 0 ? 0 : 2 * k + e.u, e.v == 0 ? 0 : 2 * k + e.v, LE, e.w, false, 0});
                }
            }
            fn(ordered_scenario(cs));
            return;
        }
        for (size_t i = from; i < sets.size(); ++i) { idx[c] = i; pick(c + 1, i); }
    };
    pick(0, 0);
}

void for_each_split(Scenario const &sc, Emit const &fn) {
    auto const &st = sc.steps[0];
    size_t n = st.cons.size();
    for (unsigned mask = 1; mask + 1 < (1U << n); ++mask) {
        Scenario s = sc;
        s.steps.clear();
        StepDef a, b;
        std::map<lit_t, lit_t> ren;
        auto add = [&](StepDef &d, Con c) {
            lit_t v = std::abs(c.lit);
            if (v > 1) {
                auto [it, ins] = ren.emplace(v, static_cast<lit_t>(ren.size()) + 2);
                if (ins) { ++d.nlits; }
                c.lit = c.lit > 0 ? it->second : -it->second;
            }
            d.cons.push_back(c);
        };
        for (size_t i = 0; i < n; ++i) { if ((mask >> i) & 1) { add(a, st.cons[i]); } }
        for (size_t i = 0; i < n; ++i) { if (!((mask >> i) & 1)) { add(b, st.cons[i]); } }
        s.steps = {a, b};
        fn(s);
    }
}

void for_each_multishot(Scenario const &sc, int nsteps, std::string const &what, Emit const &fn) {
    auto const &st = sc.steps[0];
    size_t n = st.cons.size();
    std::vector<int> where(n, 0);
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i < n) {
            for (where[i] = 0; where[i] < nsteps; ++where[i]) { rec(i + 1); }
            return;
        }
        for (int k = 0; k < nsteps; ++k) { if (std::find(where.begin(), where.end(), k) == where.end()) { return; } }
        Scenario s = sc;
        s.steps.assign(nsteps, StepDef{});
        std::map<lit_t, lit_t> ren;
        std::vector<int> intro; // step by new literal
        for (int k = 0; k < nsteps; ++k) {
            for (size_t j = 0; j < n; ++j) {
                if (where[j] != k) { continue; }
                Con c = st.cons[j];
                lit_t v = std::abs(c.lit);
                if (v > 1) {
                    auto [it, ins] = ren.emplace(v, static_cast<lit_t>(ren.size()) + 2);
                    if (ins) { ++s.steps[k].nlits; intro.push_back(k); }
                    c.lit = c.lit > 0 ? it->second : -it->second;
                }
                s.steps[k].cons.push_back(c);
            }
        }
        int last = nsteps - 1;
        for (char w : what) {
            auto t = s;
            if (w == 'p') { fn(t); }
            if (w == 'e') { t.steps.emplace_back(); fn(t); }
            if (w == 'b') {
                for (size_t a = 0; a < intro.size(); ++a) {
                    for (size_t b = a + 1; b < intro.size(); ++b) {
                        for (int k = std::max(intro[a], intro[b]); k <= last; ++k) {
                            for (int m = 0; m < 4; ++m) {
                                t = s;
                                lit_t la = static_cast<lit_t>(a) + 2, lb = static_cast<lit_t>(b) + 2;
                                t.steps[k].clauses.push_back({m & 1 ? la : -la, m & 2 ? lb : -lb});
                                fn(t);
                            }
                        }
                    }
                }
                continue;
            }
            for (size_t l = 0; l < intro.size(); ++l) {
                lit_t lit = static_cast<lit_t>(l) + 2;
                for (int sg : {1, -1}) {
                    if (w == 'c') {
                        for (int k = intro[l] + 1; k <= last; ++k) {
                            t = s;
                            t.steps[k].clauses.push_back({lit * sg});
                            fn(t);
                        }
                    }
                    if (w == 'a' && intro[l] < last) {
                        t = s;
                        for (int k = intro[l]; k <= last; ++k) { t.steps[k].assume.push_back(((k - intro[l]) & 1) ? -lit * sg : lit * sg); }
                        fn(t);
                    }
                }
            }
            if (w == 't') {
                std::vector<std::vector<int>> seqs = nsteps == 2 ? std::vector<std::vector<int>>{{1, 2}, {2, 1}, {2, 3}} : std::vector<std::vector<int>>{{1, 2, 1}, {2, 1, 2}, {1, 3, 2}};
                for (auto &q : seqs) {
                    t = s;
                    for (int k = 0; k < nsteps; ++k) { t.steps[k].threads = q[k % q.size()]; }
                    fn(t);
                }
            }
        }
    };
    rec(0);
}

} // namespace core
