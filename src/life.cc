// Legal sequences of interface calls under address and undefined behavior sanitizers.
#include "e2e.hh"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace e2e {

using namespace core;

namespace {

// Before registering:
//   a propagation options, b rdl, c invalid values, d unknown keys, k other options, v validate
// Afterwards:
//   e empty program, f choices and facts, g conflicting facts, h body constraints, n new variables below old ones,
//   i malformed constraint, j unsupported atom, r callback that fails, p prepare,
//   s all models, m one model, t handler that fails, y models one by one, x as y but cancelled, u assumptions,
//   T two threads, U one thread, W three threads, q queries
// Finally: D theory destroyed first, E control destroyed first
struct Life : private Clingo::SolveEventHandler {
    explicit Life(Results &res) : res{res} {
        for (int k = 0; k < 8; ++k) {
            int v[3] = {-1, -1, -1};
            clingodl_version((k & 1) != 0 ? v : nullptr, (k & 2) != 0 ? v + 1 : nullptr, (k & 4) != 0 ? v + 2 : nullptr);
            int w[3] = {CLINGODL_VERSION_MAJOR, CLINGODL_VERSION_MINOR, CLINGODL_VERSION_REVISION};
            for (int i = 0; i < 3; ++i) {
                if (v[i] != ((k >> i & 1) != 0 ? w[i] : -1)) { fail("wrong version"); }
            }
        }
        if (!clingodl_create(&th)) { fail("create failed"); }
    }
    ~Life() override {
        ctl.reset();
        if (th != nullptr) { clingodl_destroy(th); }
    }
    [[noreturn]] static void fail(std::string const &s) { throw Violation("life", s); }
    static void expect(bool got, bool want, char const *what) {
        if (got != want) { fail(std::string(what) + (got ? " succeeded" : std::string(" failed: ") + (clingo_error_message() ? clingo_error_message() : "no message"))); }
        if (!want) {
            auto *m = clingo_error_message();
            if (m == nullptr || *m == '\0' || clingo_error_code() == clingo_error_success) { fail(std::string(what) + " failed without an error"); }
            clingo_set_error(clingo_error_success, nullptr);
        }
    }
    void conf(char const *k, char const *v, bool want) { expect(clingodl_configure(th, k, v), want, k); }

    // other threads may be running while a model is inspected
    void queries(std::optional<uint32_t> thread = std::nullopt) {
        std::vector<Clingo::Symbol> syms;
        for (auto s : {"a", "b", "c(1)", "nothere", "diff", "(1,2)", "\"s\""}) { syms.push_back(Clingo::parse_term(s)); }
        syms.push_back(Clingo::Number(0));
        syms.push_back(Clingo::Number(3));
        syms.push_back(Clingo::Infimum());
        for (auto tid : {0U, 1U, 2U, 3U, 63U, 64U, 1000U, 4294967295U}) {
            if (thread && (tid < 64) != (tid == *thread)) { continue; }
            for (auto s : syms) {
                size_t idx = 12345;
                if (!clingodl_lookup_symbol(th, s.to_c(), &idx)) {
                    // unknown symbols have no value
                    if (idx != 12345 && clingodl_assignment_has_value(th, tid, idx)) { fail("unknown symbol has a value"); }
                    continue;
                }
                if (clingodl_get_symbol(th, idx) != s.to_c()) { fail("wrong symbol returned"); }
                if (clingodl_assignment_has_value(th, tid, idx)) {
                    clingodl_value_t v;
                    v.type = 99;
                    clingodl_assignment_get_value(th, tid, idx, &v);
                    if (v.type != (rdl ? clingodl_value_type_double : clingodl_value_type_int)) { fail("wrong type of value"); }
                }
                res.add("queries");
            }
            size_t i = 0, n = 0;
            clingodl_assignment_begin(th, tid, &i);
            while (clingodl_assignment_next(th, tid, &i)) {
                clingodl_value_t v;
                clingodl_assignment_get_value(th, tid, i, &v);
                Clingo::Symbol s{clingodl_get_symbol(th, i)};
                sum += s.hash() + (rdl ? static_cast<size_t>(v.double_number) : static_cast<size_t>(v.int_number));
                if (++n > 1000) { fail("iteration does not end"); }
            }
            if (clingodl_assignment_has_value(th, tid, i)) { fail("value after the end of the iteration"); }
        }
    }
    bool on_model(Clingo::Model &m) override {
        expect(clingodl_on_model(th, m.to_c()), true, "clingodl_on_model");
        queries(m.thread_id());
        res.add("models");
        if (throwing) { throw std::runtime_error("handler failed"); }
        return true;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        stat_ok = stat_ok && clingodl_on_statistics(th, step.to_c(), accu.to_c());
    }
    void add(std::string const &text, bool ok = true, bool cut = false) {
        struct Data { clingodl_theory_t *th; clingo_program_builder_t *b; bool cut; bool result; } data{th, nullptr, cut, true};
        Clingo::AST::with_builder(*ctl, [&](Clingo::AST::ProgramBuilder &b) {
            data.b = b.to_c();
            auto ret = clingo_ast_parse_string(text.c_str(), [](clingo_ast_t *ast, void *p) {
                auto *d = static_cast<Data *>(p);
                bool r = clingodl_rewrite_ast(d->th, ast, [](clingo_ast_t *a, void *q) {
                    auto *e = static_cast<Data *>(q);
                    if (e->cut) { clingo_set_error(clingo_error_runtime, "stopped"); return false; }
                    return clingo_program_builder_add(e->b, a);
                }, d);
                if (!r && d->result) {
                    d->result = false;
                    if (clingo_error_message() == nullptr) { clingo_set_error(clingo_error_unknown, "unset"); d->result = true; }
                }
                return true;
            }, &data, nullptr, nullptr, nullptr, 0);
            (void)ret;
        });
        if (data.result != ok) { fail(ok ? "rewriting failed: " + text : "rewriting succeeded or failed without message: " + text); }
    }
    void ground() {
        auto p = "p" + std::to_string(part);
        ctl->ground({{p.c_str(), {}}});
    }
    void program(std::string const &text) {
        ++part;
        add("#program p" + std::to_string(part) + ". " + text);
        ground();
    }
    void solve(char kind) {
        throwing = kind == 't';
        bool error = false;
        stat_ok = true;
        try {
            ctl->configuration()["solve"]["models"] = kind == 'm' ? "1" : "0";
            if (kind == 'y' || kind == 'x') {
                auto h = ctl->solve(Clingo::LiteralSpan{}, this, false, true);
                int n = 0;
                for (;;) {
                    auto &m = h.model();
                    if (!m) { break; }
                    queries(m.thread_id());
                    if (kind == 'x') { break; }
                    if (++n > 1000) { fail("too many models"); }
                    h.resume();
                }
                h.cancel();
            } else if (kind == 'u') {
                for (auto a : ctl->symbolic_atoms()) {
                    auto l = a.literal();
                    for (auto s : {l, -l}) { ctl->solve(Clingo::LiteralSpan{&s, 1}, this, false, false).get(); }
                }
            } else { ctl->solve(Clingo::LiteralSpan{}, this, false, false).get(); }
        } catch (Violation const &) { throw; }
        catch (std::exception const &) { error = true; }
        if (!stat_ok) { fail("clingodl_on_statistics failed"); }
        if (error) {
            if (!bad && !throwing) { fail("solving failed: " + std::string(clingo_error_message() ? clingo_error_message() : "")); }
            dead = true;
        }
        res.add("transitions");
    }
    void op(char c) {
        switch (c) {
            case 'a': conf("propagate", "full", true); conf("propagate-root", "1,1", true); conf("propagate", "zero,63", true); conf("propagate-budget", "2,3", true); break;
            case 'b': conf("rdl", "yes", true); rdl = true; break;
            case 'c': conf("propagate", "full,64", false); conf("add-mutexes", "1,", false); conf("sort-edges", "", false); conf("propagate-root", "99999999999999999999", false); break;
            case 'd': conf("", "", false); conf("propagate2", "full", false); conf("Propagate", "no", false); break;
            case 'k': conf("add-mutexes", "3,100", true); conf("dl-heuristic", "max", true); conf("shift-constraints", "1", true); conf("sort-edges", "potential,2", true); conf("propagate", "partial+", true); conf("propagate-root", "1", true); break;
            case 'K': conf("compute-components", "no", true); conf("dl-heuristic", "min", true); conf("sort-edges", "potential-reversed", true); conf("propagate", "zero,1", true); break;
            case 'v': expect(clingodl_validate_options(th), true, "validate"); break;
            case 'R':
                ctl = std::make_unique<Clingo::Control>(Clingo::StringSpan{}, [](Clingo::WarningCode, char const *) {}, 20);
                expect(clingodl_register(th, ctl->to_c()), true, "clingodl_register");
                ctl->ground({{"base", {}}});
                break;
            case 'e': program(""); break;
            case 'f': {
                auto x = [this](int i) { return "x(" + std::to_string(part) + "," + std::to_string(i) + ")"; };
                program("1{" + x(1) + ";" + x(2) + ";" + x(3) + "}. &diff{a-b} <= -1 :- " + x(1) + ". &diff{b-a} <= -1 :- " + x(2) + ". &diff{b-c(1)} <= 2. &diff{c(1)} <= 4 :- not " + x(3) + ".");
            }; break;
            case 'g': program("&diff{a-b} <= -1. &diff{b-a} <= -1. {y(" + std::to_string(part) + ")}. &diff{a-c(1)} <= 3 :- y(" + std::to_string(part) + ")."); break;
            case 'h': {
                auto z = "z(" + std::to_string(part) + ")";
                if (rdl) { program("{" + z + "}. &diff{(1,2)-\"s\"} < \"0.5\" :- " + z + ". &diff{a} <= 3 :- not " + z + ". :- " + z + ", &diff{a-(1,2)} < 1."); if (!shifted) { bad = true; } }
                else { program("{" + z + "}. w(" + std::to_string(part) + ") :- &diff{a-b} <= 1. :- " + z + ", not &diff{(1,2)-\"s\"} = 0. &diff{b} >= 1 :- " + z + "."); }
                break;
            }
            case 'n': program("&diff{d(" + std::to_string(part) + ")-d(" + std::to_string(part) + "+1)} <= -2. {o(" + std::to_string(part) + ")}. &diff{d(" + std::to_string(part) + "+1)-a} != 1 :- o(" + std::to_string(part) + ")."); break;
            case 'i': program("&diff{a-b-c} <= 1."); bad = true; break;
            case 'j': add("x :- &diff{a;b} <= 1.", false); break;
            case 'r': add("x.", false, true); break;
            case 'p': expect(clingodl_prepare(th, ctl->to_c()), true, "prepare"); break;
            case 'T': ctl->configuration()["solve"]["parallel_mode"] = "2"; break;
            case 'U': ctl->configuration()["solve"]["parallel_mode"] = "1"; break;
            case 'W': ctl->configuration()["solve"]["parallel_mode"] = "3"; break;
            case 'q': queries(); break;
            case 'D': expect(clingodl_destroy(th), true, "destroy"); th = nullptr; ctl.reset(); break;
            case 'E': ctl.reset(); expect(clingodl_destroy(th), true, "destroy"); th = nullptr; break;
            default: solve(c);
        }
    }
    void run(std::string const &ops) {
        shifted = ops.find('k') != std::string::npos;
        for (char c : ops) {
            if (dead && c != 'q' && c != 'D' && c != 'E') { continue; } // after errors only queries are possible
            op(c);
        }
    }

    Results &res;
    clingodl_theory_t *th{nullptr};
    std::unique_ptr<Clingo::Control> ctl;
    bool rdl{false}, bad{false}, dead{false}, throwing{false}, stat_ok{true}, shifted{false};
    int part{0};
    size_t sum{0};
};

size_t allocated() {
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

void once(std::string const &ops, Results &res) {
    try {
        Life l{res};
        l.run(ops);
    } catch (Violation &v) {
        v.replay = "LIFE " + ops;
        v.msg += " in sequence " + ops;
        throw;
    } catch (std::exception const &e) {
        Violation v("life", std::string("exception ") + e.what() + " in sequence " + ops);
        v.replay = "LIFE " + ops;
        throw v;
    }
}

void run_life(std::string const &ops, Results &res, bool leaks) {
    set_current("LIFE " + ops);
    once(ops, res);
    if (leaks && ops.find_first_of("TWt") == std::string::npos) { // clingo itself loses memory in failing and parallel runs
        // interned symbols are allocated in the first run only; whatever grows in each further run is lost
        size_t m[6];
        for (auto &x : m) { Results tmp; once(ops, tmp); x = allocated(); }
        bool grows = true;
        for (int i = 1; i < 6; ++i) { grows = grows && m[i] > m[i - 1]; }
        if (grows) {
            Violation v("leak", "memory leaked in each run: " + std::to_string(m[5] - m[4]) + " bytes in sequence " + ops);
            v.replay = "LIFE " + ops;
            throw v;
        }
        res.add("leak_checks");
    }
    res.add("scenarios");
    res.add("states");
}

} // namespace

void check_life(Ctx &x, std::string const &) {
    auto T = x.thorough;
    size_t k = 0;
    auto all = [&](std::string const &pre, std::string const &alphabet, int depth, size_t stride) {
        std::string cur;
        std::function<void()> rec = [&] {
            if (static_cast<int>(cur.size()) == depth) {
                if (k++ % stride != 0) { return; }
                if (!x.mine()) { return; }
                auto ops = pre + cur + (k % 2 == 0 ? "D" : "E");
                x.sample(ops);
                run_life(ops, x.res, k % 16 == 0);
                return;
            }
            for (char c : alphabet) {
                if (!cur.empty() && cur.back() == c && std::string("egijrpqTUW").find(c) != std::string::npos) { continue; } // repetition without effect
                cur += c;
                rec();
                cur.pop_back();
            }
        };
        rec();
    };
    // never registered, all orders of configuration
    for (int d = 0; d <= 3; ++d) {
        std::function<void(std::string)> rec = [&](std::string s) {
            if (static_cast<int>(s.size()) == d) {
                for (auto e : {"D", "RD", "RE", "RqE", "RsD", "RfsqD", "RgsE", "RpnspE"}) { if (x.mine()) { run_life(s + e, x.res, true); } }
                return;
            }
            for (char c : std::string("abcdkKv")) { rec(s + c); }
        };
        rec("");
    }
    for (auto pre : {"R", "aR", "kR", "bR", "KR", "bkR"}) {
        for (int d = 1; d <= 3; ++d) { all(pre, "efghnijrpsmtyxuTUWq", d, 1); }
    }
    for (auto pre : {"R", "aR", "kR", "KbR"}) { all(pre, "fghnsyTUq", 4, T ? 1 : 3); }
    for (auto pre : {"aR", "kR"}) { all(pre, "fghnsTU", 6, T ? 5 : 101); }
}

void replay_life(std::string const &s, Results &res) { run_life(s, res, true); }

} // namespace e2e
