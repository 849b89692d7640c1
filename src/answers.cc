// Programs whose answers are compared with brute force.
#include "e2e.hh"

namespace e2e {

using namespace core;

namespace {

//! What happens before solving a step.
struct StepCtl {
    std::string q;                       // state of external i: t, f, * (free), r (released), . (unchanged)
    std::vector<int> assume;             // assumptions over e(i)
    Strings conf;                        // clingo settings, key=value
    bool resolve{false};                 // solve twice
};

struct Scen {
    std::string kind{"run"}; // run: exact answers, shift: projection to regular atoms
    Config opts;
    Strings args;
    Prog prog;
    std::vector<StepCtl> script;

    std::string str() const {
        std::ostringstream o;
        o << kind << "#" << show_config(opts) << "#";
        for (auto &a : args) { o << a << " "; }
        o << "#" << prog.str() << "#";
        for (auto &s : script) {
            o << "q" << s.q << ",a";
            for (auto a : s.assume) { o << a << " "; }
            o << ",c";
            for (auto &c : s.conf) { o << c << " "; }
            o << ",r" << s.resolve << ";";
        }
        return o.str();
    }
    static Scen parse(std::string const &s) {
        auto f = split(s, '#');
        Scen r;
        r.kind = f.at(0);
        r.opts = parse_config(f.at(1));
        std::istringstream in(f.at(2));
        std::string a;
        while (in >> a) { r.args.push_back(a); }
        r.prog = Prog::parse(f.at(3));
        if (f.size() > 4) {
            for (auto &st : split(f[4], ';')) {
                if (st.empty()) { continue; }
                StepCtl c;
                for (auto &x : split(st, ',')) {
                    std::istringstream i2(x.substr(1));
                    if (x[0] == 'q') { c.q = x.substr(1); }
                    if (x[0] == 'a') { int v; while (i2 >> v) { c.assume.push_back(v); } }
                    if (x[0] == 'c') { std::string v; while (i2 >> v) { c.conf.push_back(v); } }
                    if (x[0] == 'r') { c.resolve = x[1] == '1'; }
                }
                r.script.push_back(c);
            }
        }
        return r;
    }
};

void set_conf(Clingo::Control &ctl, std::string const &kv) {
    auto p = kv.find('=');
    auto c = ctl.configuration();
    for (auto &k : split(kv.substr(0, p), '.')) { c = c[k.c_str()]; }
    c = kv.substr(p + 1).c_str();
}

//! Executes a scenario operation by operation (create, one load and one solve per step, destroy).
class Runner {
  public:
    Runner(Scen const &sc, Results &res) : sc{sc}, res{res}, steps{sc.prog.steps()} {}
    int ops() const { return 2 + 2 * steps; }
    void next() {
        int op = op_++;
        if (op == 0) { s = std::make_unique<Session>(sc.opts, sc.args); }
        else if (op == 1 + 2 * steps) { s.reset(); }
        else if (op % 2 == 1) { load_((op - 1) / 2); }
        else { solve_((op - 2) / 2); }
    }
    void all() { while (op_ < ops()) { next(); } }

  private:
    StepCtl ctl_(int k) const { return k < static_cast<int>(sc.script.size()) ? sc.script[k] : StepCtl{}; }
    void load_(int k) {
        if (k == 0) { q_.assign(sc.prog.nq + 1, 'f'); }
        s->add(sc.prog.text(k));
        if (k == 0) { s->ground("base"); }
        s->ground(("s" + std::to_string(k)).c_str());
        auto c = ctl_(k);
        for (size_t i = 0; i < c.q.size(); ++i) {
            if (c.q[i] == '.') { continue; }
            auto sym = Clingo::Function("q", {Clingo::Number(static_cast<int>(i) + 1)});
            q_[i + 1] = c.q[i];
            if (c.q[i] == 'r') { s->ctl->release_external(sym); }
            else { s->ctl->assign_external(sym, c.q[i] == 't' ? Clingo::TruthValue::True : c.q[i] == 'f' ? Clingo::TruthValue::False : Clingo::TruthValue::Free); }
        }
        for (auto &x : c.conf) { set_conf(*s->ctl, x); }
    }
    void solve_(int k) {
        auto c = ctl_(k);
        std::vector<clingo_literal_t> as;
        bool missing = false;
        for (auto a : c.assume) {
            auto it = s->ctl->symbolic_atoms().find(Clingo::Function("e", {Clingo::Number(std::abs(a))}));
            if (it == s->ctl->symbolic_atoms().end()) { // clingo drops atoms that are false at the top level
                missing = missing || a > 0;
                continue;
            }
            as.push_back(a > 0 ? (*it).literal() : -(*it).literal());
        }
        std::vector<RefAnswer> want;
        std::vector<bool> q(sc.prog.nq + 1, false);
        bool cc = true;
        for (auto &[key, val] : sc.opts) { cc = cc && (key != "compute-components" || val != "no"); }
        std::function<void(int)> rec = [&](int i) {
            if (i > sc.prog.nq) {
                for (auto &r : reference(sc.prog, k, q, cc)) {
                    bool ok = true;
                    auto atoms = " " + r.ans.atoms + " ";
                    for (auto a : c.assume) { ok = ok && (atoms.find(" e(" + std::to_string(std::abs(a)) + ") ") != std::string::npos) == (a > 0); }
                    if (ok) { want.push_back(std::move(r)); }
                }
                return;
            }
            if (q_[i] != 't') { q[i] = false; rec(i + 1); }
            if (q_[i] == 't' || q_[i] == '*') { q[i] = true; rec(i + 1); }
        };
        rec(1);
        for (int n = 0; n < (c.resolve ? 2 : 1); ++n) {
            s->check_api = !sc.prog.rdl || sc.prog.scale >= 1e-5;
            auto got = missing ? std::vector<Answer>{} : s->solve(as);
            res.add("transitions", got.size());
            res.add("solve_calls");
            res.add("answers", got.size());
            std::string diff;
            if (sc.kind == "shift") {
                std::set<std::string> g, w;
                for (auto &a : got) { g.insert(a.atoms); }
                for (auto &r : want) { w.insert(r.ans.atoms); }
                if (g != w) {
                    diff = "answer sets differ: {";
                    for (auto &a : g) { diff += " [" + a + "]"; }
                    diff += " } expected {";
                    for (auto &a : w) { diff += " [" + a + "]"; }
                    diff += " }";
                }
            } else {
                diff = compare(got, want, res);
            }
            if (!diff.empty()) { throw Violation("answers", "step " + std::to_string(k) + ": " + diff + " for program " + sc.prog.text(k)); }
            uint64_t h = 99;
            for (auto &a : got) { h = hash_mix(h, std::hash<std::string>{}(show(a))); }
            res.outcome(h);
        }
    }
    Scen const &sc;
    Results &res;
    int steps;
    int op_{0};
    std::unique_ptr<Session> s;
    std::string q_;
};

//! The program has to be refused with an error.
void must_fail(Scen const &sc, Results &res) {
    std::string got;
    try {
        Session s{sc.opts, sc.args};
        s.check_api = false;
        s.add(sc.prog.text(0));
        s.ground("base");
        s.ground("s0");
        for (auto &a : s.solve({})) { got += " [" + show(a) + "]"; }
    } catch (std::exception const &e) {
        res.add("rejected");
        return;
    }
    throw Violation("accepted", "the program is accepted with answers {" + got + " } but has to be refused: " + sc.prog.text(0));
}

void run_scen(Scen const &sc, Results &res) {
    auto str = "ANS " + sc.str();
    set_current(str);
    try {
        if (sc.kind == "reject") { must_fail(sc, res); }
        else {
            Runner r{sc, res};
            r.all();
        }
    } catch (Violation &v) {
        v.replay = str;
        throw;
    } catch (std::exception const &e) {
        Violation v("error", std::string(e.what()) + " for program " + sc.prog.text(0));
        v.replay = str;
        throw v;
    }
    res.add("scenarios");
    res.add("states");
}

//! All interleavings (or a given one) of the operations of two scenarios.
void run_pair(Scen const &a, Scen const &b, std::string const &only, Results &res) {
    int na = Runner(a, res).ops(), nb = Runner(b, res).ops();
    std::string order;
    std::function<void(int, int)> rec = [&](int i, int j) {
        if (i + j == na + nb) {
            auto str = "ANS PAIR##" + a.str() + "##" + b.str() + "##" + order;
            set_current(str);
            try {
                Runner ra{a, res}, rb{b, res};
                for (char c : order) { (c == 'a' ? ra : rb).next(); }
            } catch (std::exception const &e) {
                Violation v("pair", e.what());
                v.replay = str;
                throw v;
            }
            res.add("states");
            res.add("interleavings");
            return;
        }
        if (i < na) { order += 'a'; rec(i + 1, j); order.pop_back(); }
        if (j < nb) { order += 'b'; rec(i, j + 1); order.pop_back(); }
    };
    if (!only.empty()) {
        Runner ra{a, res}, rb{b, res};
        for (char c : only) { (c == 'a' ? ra : rb).next(); }
        return;
    }
    rec(0, 0);
}

std::vector<Config> cfgs(std::initializer_list<char const *> l) {
    std::vector<Config> r;
    for (auto x : l) { r.push_back(parse_config(x)); }
    return r;
}
std::vector<Strings> argss(std::initializer_list<char const *> l) {
    std::vector<Strings> r;
    for (auto x : l) {
        Strings a{"0"};
        std::istringstream in(x);
        std::string s;
        while (in >> s) { a.push_back(s); }
        r.push_back(a);
    }
    return r;
}

//! Distribute the constraints over the given number of steps in all ways (the first step is never empty).
void distribute(Prog p, int n, std::function<void(Prog const &)> const &fn) {
    std::vector<int> d(p.stms.size(), 0);
    for (;;) {
        bool first = false;
        int mx = 0;
        for (size_t i = 0; i < d.size(); ++i) { p.stms[i].step = d[i]; first = first || d[i] == 0; mx = std::max(mx, d[i]); }
        if (first && mx + 1 == n) { fn(p); }
        size_t i = 0;
        while (i < d.size() && ++d[i] == n) { d[i++] = 0; }
        if (i == d.size()) { return; }
    }
}

//! Disjunctive scheduling of tasks with the given durations on one machine within a bound.
Prog schedule(std::vector<int> const &d, int bound, bool body, int per_step = 0) {
    Prog p;
    int n = static_cast<int>(d.size());
    auto add = [&](int head, Con c, std::vector<BLit> b, int step) {
        p.cons.push_back(c);
        Stm s;
        s.head = head;
        s.idx = static_cast<int>(p.cons.size()) - 1;
        s.body = std::move(b);
        s.step = per_step > 0 ? step / per_step : 0;
        p.stms.push_back(s);
    };
    for (int i = 1; i <= n; ++i) {
        add(HEAD_DIFF, {0, i, LE, 0}, {}, i - 1);
        add(HEAD_DIFF, {i, 0, LE, bound - d[i - 1]}, {}, i - 1);
        for (int j = 1; j < i; ++j) {
            ++p.ne;
            add(HEAD_DIFF, {j, i, LE, -d[j - 1]}, {{ATOM_E, p.ne, 0}}, i - 1);
            add(HEAD_DIFF, {i, j, LE, -d[i - 1]}, {{ATOM_E, p.ne, 1}}, i - 1);
        }
    }
    if (body) {
        p.cons.push_back({1, n, GT, 1});
        Stm s;
        s.head = HEAD_X;
        s.idx = 1;
        s.body = {{ATOM_DIFF, static_cast<int>(p.cons.size()) - 1, 0}};
        p.stms.push_back(s);
    }
    return p;
}
//! All durations out of {1,2} with tight and loose bounds.
void for_each_schedule(int n, std::function<void(std::vector<int> const &, int)> const &fn) {
    for (int m = 0; m < (1 << n); ++m) {
        std::vector<int> d;
        int sum = 0;
        for (int i = 0; i < n; ++i) { d.push_back(1 + ((m >> i) & 1)); sum += d.back(); }
        for (int b : {sum - 1, sum, sum + 1, sum + 3}) { fn(d, b); }
    }
}

} // namespace

void check_answers(Ctx &x, std::string const &prop) {
    auto run = [&](Scen const &sc) {
        if (!x.mine()) { return; }
        x.sample(sc.str());
        run_scen(sc, x.res);
    };
    auto T = x.thorough;
    if (prop == "C08") {
        // theory options: every mode with root limits, budgets, sorting, mutexes and heuristics
        std::vector<Config> opts;
        for (auto m : {"no", "inverse", "partial", "partial+", "zero", "full"}) {
            for (auto o : {"", "propagate-root:1", "propagate-root:3 propagate-budget:1", "propagate-budget:2", "propagate-root:1000000000 propagate-budget:1000"}) { opts.push_back(parse_config("propagate:" + std::string(m) + " " + o)); }
            for (auto o : {"sort-edges:no", "sort-edges:weight-reversed", "sort-edges:potential", "sort-edges:potential-reversed", "add-mutexes:1", "add-mutexes:2", "add-mutexes:3,1000", "dl-heuristic:min", "dl-heuristic:max",
                           "add-mutexes:4,3 sort-edges:potential dl-heuristic:min", "compute-components:no", "compute-components:no dl-heuristic:max propagate-root:1"}) {
                opts.push_back(parse_config("propagate:" + std::string(m) + " " + o));
            }
        }
        auto search = argss({"", "--configuration=jumpy", "--configuration=handy", "--configuration=crafty", "--configuration=trendy", "--configuration=frumpy", "--heuristic=Berkmin", "--heuristic=Unit", "--heuristic=None --lookahead=atom",
                             "--heuristic=Vmtf --sign-def=pos", "--sign-def=neg --restart-on-model", "--sign-def=rnd --seed=3 --rand-freq=0.5", "--enum-mode=record", "--enum-mode=bt --save-progress=1", "--sat-prepro=2", "--sat-prepro=2,iter=20,occ=25,time=10 --eq=5",
                             "--restarts=F,1 --deletion=basic,75 --del-init=1.0,1,2 --del-grow=no", "--trans-ext=all --no-gamma --backprop", "--loops=no --update-act --otfs=2", "--reset-restarts=repeat --strengthen=recursive,all --update-lbd=glucose", "--partial-check=1 --forget-on-step=15"});
        auto par = argss({"-t2", "-t3", "-t2 --configuration=many", "-t2,split", "-t4,compete --distribute=all,100", "-t2 --integrate=all,10,all --sat-prepro=2"});
        auto popts = cfgs({"", "propagate:full", "propagate:zero,0 propagate:full,1 propagate:inverse,2", "propagate:partial propagate-root:2,1 propagate-budget:1,0 sort-edges:no,2", "propagate:partial+ add-mutexes:2 dl-heuristic:max"});
        auto progs = [&](std::vector<std::string> const &roles, std::vector<int> const &w, int V, std::vector<int> const &ops, int stride, auto const &fn) {
            for (auto &r : roles) {
                int n = 0;
                for_each_cons(V, static_cast<int>(r.size()), w, ops, [&](std::vector<Con> const &c) { if (n++ % stride == 0) { fn(make_prog(c, r)); } });
            }
        };
        // every option set on small programs
        progs({"HHH", "HBN", "FHB", "SCM", "HHX"}, {-1, 1}, 2, {LE}, 1, [&](Prog const &p) { for (auto &o : opts) { run({"run", o, {"0"}, p, {}}); } });
        progs({"HB", "BC"}, {-1, 0, 1}, 2, {EQ, NE, LT}, T ? 1 : 5, [&](Prog const &p) { for (auto &o : opts) { run({"run", o, {"0"}, p, {}}); } });
        progs({"HHHHH", "FHHBB"}, {-1}, 3, {LE}, T ? 29 : 101, [&](Prog const &p) { for (auto &o : opts) { run({"run", o, {"0"}, p, {}}); } });
        // search configurations
        progs({"HHH", "SBH", "BBF", "KHB"}, {-1, 1}, 2, {LE, NE}, T ? 11 : 61, [&](Prog const &p) { for (auto &s : search) { for (auto &o : popts) { run({"run", o, s, p, {}}); } } });
        progs({"HHHH"}, {-1}, 3, {LE}, T ? 5 : 31, [&](Prog const &p) { for (auto &s : search) { for (auto &o : popts) { run({"run", o, s, p, {}}); } } });
        progs({"HHH", "HBN", "FBB"}, {-1, 1}, 2, {LE, EQ}, T ? 17 : 127, [&](Prog const &p) { for (auto &s : par) { for (auto &o : popts) { run({"run", o, s, p, {}}); } } });
        // scheduling: search with conflicts and many answers
        size_t k = 0;
        for_each_schedule(3, [&](std::vector<int> const &d, int b) { for (auto &o : opts) { for (bool body : {false, true}) { run({"run", o, {"0"}, schedule(d, b, body), {}}); } } });
        for_each_schedule(4, [&](std::vector<int> const &d, int b) {
            for (auto &o : opts) { if (T || k++ % 3 == 0) { run({"run", o, {"0"}, schedule(d, b, k % 2 == 1), {}}); } }
            for (auto &s : search) { for (auto &o : popts) { if (T || k++ % 3 == 0) { run({"run", o, s, schedule(d, b, k % 2 == 1), {}}); } } }
            for (auto &s : par) { for (auto &o : popts) { if (T || k++ % 7 == 0) { run({"run", o, s, schedule(d, b, k % 2 == 1), {}}); } } }
        });
        for_each_schedule(5, [&](std::vector<int> const &d, int b) { for (auto &o : opts) { if (k++ % (T ? 5 : 53) == 0) { run({"run", o, k % 2 ? Strings{"0"} : Strings{"0", "--configuration=jumpy"}, schedule(d, b, k % 2 == 1), {}}); } } });
        progs({"HHHHHH"}, {-1}, 3, {LE}, T ? 101 : 977, [&](Prog const &p) { for (auto &s : par) { for (auto &o : popts) { run({"run", o, s, p, {}}); } } });
    }
    else if (prop == "C09") {
        auto opts = cfgs({"", "propagate:full", "propagate:zero add-mutexes:2", "propagate:partial+ propagate-root:1 sort-edges:potential", "propagate:inverse dl-heuristic:min", "propagate:partial compute-components:no"});
        size_t k = 0;
        for (auto &r : Strings{"HHH", "FHB", "HFB", "HBN", "SCM", "BXF", "FFH", "HHF"}) {
            int n = 0;
            for_each_cons(2, 3, {-1, 1}, {LE}, [&](std::vector<Con> const &c) {
                if (false && n++ != 0) { return; }
                auto p = make_prog(c, r);
                distribute(p, 2, [&](Prog const &q) {
                    run({"run", opts[k++ % opts.size()], {"0"}, q, {}});
                    StepCtl a;
                    if (q.ne > 0) {
                        a.assume = {k % 2 ? 1 : -1};
                        run({"run", opts[k++ % opts.size()], {"0"}, q, {a, {}}});
                        run({"run", opts[k++ % opts.size()], {"0"}, q, {{}, a}});
                    }
                });
                distribute(p, 3, [&](Prog const &q) { run({"run", opts[k++ % opts.size()], {"0"}, q, {}}); });
            });
        }
        // externals: all sequences of values over three steps
        for (auto &r : Strings{"QHB", "QQ", "QFB", "FQQ", "QBH"}) {
            int n = 0;
            for_each_cons(2, static_cast<int>(r.size()), {-1, 1}, {LE}, [&](std::vector<Con> const &c) {
                if (n++ % (r.size() == 2 ? 1 : T ? 3 : 23) != 0) { return; }
                auto p = make_prog(c, r);
                auto q3 = p;
                // a further constraint in the last step keeps the number of steps at three
                for (int shape = 0; shape < 2; ++shape) {
                    q3 = p;
                    q3.cons.push_back({1, 2, shape == 0 ? LE : EQ, 0});
                    Stm s;
                    s.head = shape == 0 ? HEAD_DIFF : HEAD_X;
                    s.idx = shape == 0 ? static_cast<int>(q3.cons.size()) - 1 : 9;
                    if (shape == 0) { s.body = {{ATOM_Q, 1, 1}}; } else { s.body = {{ATOM_DIFF, static_cast<int>(q3.cons.size()) - 1, 0}}; }
                    s.step = 2;
                    q3.stms.push_back(s);
                    std::string const vals = "tf*r";
                    for (char a : std::string("tf*")) {
                        for (char b : vals) {
                            for (char d : vals) {
                                if (b == 'r' && d != 'r') { continue; }
                                auto st = [](char v) { StepCtl c; c.q = std::string(1, v); if (v == 'r') { c.q = "r"; } return c; };
                                auto last = st(d);
                                if (b == 'r') { last.q = "."; }
                                run({"run", opts[k++ % opts.size()], {"0"}, q3, {st(a), st(b), last}});
                            }
                        }
                    }
                }
            });
        }
        for_each_schedule(4, [&](std::vector<int> const &d, int b) {
            for (auto &o : opts) { for (int per : {1, 2}) { run({"run", o, {"0"}, schedule(d, b, false, per), {}}); } }
        });
        for_each_schedule(3, [&](std::vector<int> const &d, int b) {
            for (auto &o : opts) {
                for (auto &t : Strings{"121", "312"}) {
                    Scen sc{"run", o, {"0"}, schedule(d, b, true, 1), {}};
                    for (char c : t) { StepCtl s; s.conf = {std::string("solve.parallel_mode=") + c}; sc.script.push_back(s); }
                    run(sc);
                }
            }
        });
        // the number of threads changes between steps
        for (auto &r : Strings{"HHH", "FHB", "HBN"}) {
            int n = 0;
            for_each_cons(2, 3, {-1, 1}, {LE}, [&](std::vector<Con> const &c) {
                if (n++ % (T ? 5 : 23) != 0) { return; }
                distribute(make_prog(c, r), 3, [&](Prog const &q) {
                    for (auto &t : Strings{"112", "121", "211", "213", "123", "322"}) {
                        Scen sc{"run", opts[k++ % opts.size()], {"0"}, q, {}};
                        for (char d : t) { StepCtl s; s.conf = {std::string("solve.parallel_mode=") + d}; sc.script.push_back(s); }
                        run(sc);
                    }
                });
            });
        }
        // solving twice, changing the search configuration in between
        {
            int n = 0;
            for_each_cons(2, 3, {-1, 1}, {NE, LE}, [&](std::vector<Con> const &c) {
                if (n++ % (T ? 5 : 23) != 0) { return; }
                for (auto &r : Strings{"HHB", "HBB"}) {
                    distribute(make_prog(c, r), 2, [&](Prog const &q) {
                        StepCtl a;
                        a.resolve = true;
                        a.conf = {"solver.heuristic=unit"};
                        StepCtl b = a;
                        b.conf = {"solver.sign_def=rnd"};
                        run({"run", opts[k++ % opts.size()], {"0"}, q, {a, b}});
                    });
                }
            });
        }
    }
    else if (prop == "C12") {
        auto opts = cfgs({"", "propagate:full", "propagate:zero", "propagate:partial+ add-mutexes:2,100"});
        std::vector<int> all{LE, GE, LT, GT, EQ, NE};
        size_t k = 0;
        for (auto &r : Strings{"F", "H", "N", "B", "M", "D", "L", "l", "d", "C", "K", "J", "Z"}) {
            for_each_cons(2, 1, {-2, -1, 0, 1, 2}, all, [&](std::vector<Con> const &c) { for (auto &o : opts) { run({"run", o, {"0"}, make_prog(c, r), {}}); } });
        }
        // the same variable or constant on both sides
        for (auto &r : Strings{"F", "H", "N", "B", "M", "l", "K"}) {
            for (int v : {0, 1}) {
                for (int op : all) {
                    for (int w : {-1, 0, 1}) {
                        run({"run", opts[k++ % opts.size()], {"0"}, make_prog({{v, v, op, w}}, r), {}});
                        run({"run", opts[k++ % opts.size()], {"0"}, make_prog({{v, v, op, w}, {1, 2, LE, 0}}, r + "H"), {}});
                    }
                }
            }
        }
        for (auto &r : Strings{"FB", "HB", "BB", "HH", "FF", "CB", "HM", "KS", "NS", "XB", "WB", "ZH"}) {
            int n = 0;
            for_each_cons(2, 2, {-1, 0, 1}, all, [&](std::vector<Con> const &c) {
                if (n++ % 1 == 0) { run({"run", opts[k++ % opts.size()], {"0"}, make_prog(c, r), {}}); }
            });
        }
        for (auto &r : Strings{"BBB", "HBH", "FHB", "HHH", "XXB", "BMS"}) {
            int n = 0;
            for_each_cons(3, 3, {-1, 1}, all, [&](std::vector<Con> const &c) {
                if (n++ % (T ? 7 : 41) == 0) { run({"run", opts[k++ % opts.size()], {"0"}, make_prog(c, r), {}}); }
            });
        }
        // relations over several steps
        for (auto &r : Strings{"BB", "HB", "HH", "FB"}) {
            int n = 0;
            for_each_cons(2, 2, {-1, 0}, all, [&](std::vector<Con> const &c) {
                if (n++ % 1 == 0) { distribute(make_prog(c, r), 2, [&](Prog const &q) { run({"run", opts[k++ % opts.size()], {"0"}, q, {}}); }); }
            });
        }
    }
    else if (prop == "C16") {
        auto opts = cfgs({"shift-constraints:yes", "shift-constraints:yes propagate:full", "shift-constraints:yes propagate:zero compute-components:no"});
        std::vector<int> all{LE, GE, LT, GT, EQ, NE};
        size_t k = 0;
        auto shifted = [&](Prog p) { run({"shift", opts[k++ % opts.size()], {"0"}, std::move(p), {}}); };
        for (auto &r : Strings{"L", "l", "d", "C", "K", "J", "Z", "B", "M", "F", "H", "T", "t", "V", "v", "U", "u", "w"}) {
            for_each_cons(2, 1, {-1, 0, 1}, all, [&](std::vector<Con> const &c) { shifted(make_prog(c, r)); });
        }
        for (auto &r : Strings{"LB", "lB", "dB", "CH", "KH", "JS", "ZH", "WB", "WH", "CB", "KB", "ZM", "lF", "LF", "dM", "LL", "ll", "JK", "TF", "tH", "VF", "vB", "UH", "uB", "wF", "VU", "vu"}) {
            int n = 0;
            for_each_cons(2, 2, {-1, 0, 1}, all, [&](std::vector<Con> const &c) { if (n++ % 1 == 0) { shifted(make_prog(c, r)); } });
        }
        for (auto &r : Strings{"CKB", "JZH", "WBH", "WWB", "lHB", "LHH", "dBX", "CCC", "KKH"}) {
            int n = 0;
            for_each_cons(2, 3, {-1, 1}, all, [&](std::vector<Con> const &c) { if (n++ % (T ? 7 : 71) == 0) { shifted(make_prog(c, r)); } });
        }
        // real valued: shifted constraints are the only way to use difference constraints in bodies
        for (auto &r : Strings{"LF", "lF", "dF", "CH", "KF", "JF", "ZH"}) {
            int n = 0;
            for_each_cons(2, 2, {-3, 0, 1}, all, [&](std::vector<Con> const &c) {
                if (n++ % 1 != 0) { return; }
                auto p = make_prog(c, r);
                p.rdl = true;
                p.scale = 0.5;
                run({"shift", parse_config("rdl:yes shift-constraints:yes"), {"0"}, p, {}});
            });
        }
    }
    else if (prop == "C21") {
        std::vector<Config> opts = cfgs({"propagate:full", "propagate:zero dl-heuristic:max", "dl-heuristic:min sort-edges:potential add-mutexes:2", "shift-constraints:yes propagate:no,0", "compute-components:no propagate-root:1"});
        auto inst = [&](size_t o, size_t g) {
            std::vector<std::vector<Con>> gs{{{1, 2, LE, -1}, {2, 1, LE, -1}, {1, 0, LE, 3}}, {{2, 1, NE, 0}, {1, 0, EQ, 4}, {2, 0, LE, 4}}};
            auto p = make_prog(gs[g % 2], g < 2 ? "HHF" : "BHH");
            p.stms.back().step = 1;
            auto oo = opts[o];
            if (g == 1 && o % 2 == 0) { p = make_prog({{1, 2, LT, -1}, {2, 0, LE, 3}}, "HH"); p.stms.back().step = 1; p.rdl = true; p.scale = 0.5; oo.emplace_back("rdl", "yes"); }
            return Scen{oo[0].first == "shift-constraints" ? "shift" : "run", oo, {"0"}, p, {}};
        };
        for (size_t a = 0; a < opts.size(); ++a) {
            for (size_t b = 0; b < opts.size(); ++b) {
                for (size_t g = 0; g < (T ? 9 : 2); ++g) {
                    auto A = inst(a, T ? g / 3 : (a + b + g) % 3), B = inst(b, T ? g % 3 : (a + 2 * g) % 3);
                    if (x.mine()) { x.sample(A.str()); run_pair(A, B, "", x.res); }
                }
            }
        }
    }
    else if (prop == "C22") {
        auto opts = cfgs({"rdl:yes", "rdl:yes propagate:full", "rdl:yes propagate:zero add-mutexes:2", "rdl:1 propagate:partial+ sort-edges:potential", "rdl:on propagate:inverse propagate-root:1 dl-heuristic:max"});
        std::vector<int> all{LE, GE, LT, GT, EQ, NE};
        size_t k = 0;
        auto real = [&](Prog p, double s) { p.rdl = true; p.scale = s; run({"run", opts[k++ % opts.size()], {"0"}, p, {}}); };
        for (double s : {0.5, 0.25, 0.375, 1024.5}) {
            for (auto &r : Strings{"F", "H", "N"}) { for_each_cons(2, 1, {-3, -1, 0, 1, 2}, all, [&](std::vector<Con> const &c) { real(make_prog(c, r), s); }); }
            for (auto &r : Strings{"FH", "HH", "NS", "FF"}) {
                int n = 0;
                for_each_cons(2, 2, {-3, 0, 1}, all, [&](std::vector<Con> const &c) { if (n++ % 1 == 0) { real(make_prog(c, r), s); } });
            }
            for (auto &r : Strings{"HHH", "FHN"}) {
                int n = 0;
                for_each_cons(3, 3, {-3, 1}, all, [&](std::vector<Con> const &c) { if (n++ % (T ? 7 : 71) == 0) { real(make_prog(c, r), s); } });
            }
        }
        // constraints in bodies are rejected
        for (auto &r : Strings{"B", "M", "D", "L", "l", "d", "BF", "HM", "CH", "FX"}) {
            for_each_cons(2, static_cast<int>(r.size()), {-1, 1}, r.size() == 1 ? all : std::vector<int>{LE, NE}, [&](std::vector<Con> const &c) {
                auto p = make_prog(c, r);
                p.rdl = true;
                p.scale = 0.5;
                run({"reject", opts[k++ % opts.size()], {"0"}, p, {}});
            });
        }
        for (auto &r : Strings{"HH", "FH"}) {
            int n = 0;
            for_each_cons(2, 2, {-1, 1}, all, [&](std::vector<Con> const &c) {
                if (n++ % 1 != 0) { return; }
                distribute(make_prog(c, r), 2, [&](Prog q) { real(q, 0.5); });
            });
        }
    }
    else { throw std::runtime_error("unknown property"); }
}

void replay_answers(std::string const &s, Results &res) {
    if (s.compare(0, 6, "PAIR##") == 0) {
        auto p = s.find("##", 6), q = s.rfind("##");
        auto a = Scen::parse(s.substr(6, p - 6)), b = Scen::parse(s.substr(p + 2, q - p - 2));
        run_pair(a, b, s.substr(q + 2), res);
        return;
    }
    run_scen(Scen::parse(s), res);
}

} // namespace e2e
