// Rewriting of abstract syntax trees: all statements composed of given fragments, compared with independently written results.
#include "e2e.hh"

namespace e2e {

using namespace core;

namespace {

//! A part of a statement together with its instances after rewriting (one per pool element).
struct Frag {
    std::string text;
    std::vector<std::string> inst;  // expected
    // difference literals in bodies can be shifted: expected heads per instance
    std::vector<std::string> shifted;
    bool diff{false};
};
Frag same(std::string t) { Frag f; f.text = t; f.inst = {t}; return f; }
Frag pool(std::string t, std::vector<std::string> i) { Frag f; f.text = std::move(t); f.inst = std::move(i); return f; }
std::string negate(std::string const &op) {
    std::map<std::string, std::string> const m{{"<=", ">"}, {">", "<="}, {"<", ">="}, {">=", "<"}, {"=", "!="}, {"!=", "="}};
    return m.at(op);
}
Frag head_diff(std::string const &el, std::string const &op, std::string const &r) {
    Frag f;
    f.text = "&diff{" + el + "} " + op + " " + r;
    f.inst = {"&__diff_h{" + el + "} " + op + " " + r};
    f.diff = true;
    return f;
}
Frag body_diff(std::string const &sign, std::string const &el, std::string const &op, std::string const &r) {
    Frag f;
    auto rest = "{" + el + "} ";
    f.text = sign + "&diff" + rest + op + " " + r;
    f.inst = {sign + "&__diff_b" + rest + op + " " + r};
    f.shifted = {"&__diff_h" + rest + (sign == "not " ? op : negate(op)) + " " + r};
    f.diff = true;
    return f;
}

struct Collect {
    std::vector<Clingo::AST::Node> nodes;
    static bool add(clingo_ast_t *ast, void *data) {
        clingo_ast_acquire(ast);
        static_cast<Collect *>(data)->nodes.emplace_back(ast);
        return true;
    }
};

std::vector<Clingo::AST::Node> parse(std::string const &s) {
    std::vector<Clingo::AST::Node> r;
    Clingo::AST::parse_string(s.c_str(), [&](Clingo::AST::Node const &n) { if (n.type() != Clingo::AST::Type::Program) { r.push_back(n); } }, [](Clingo::WarningCode, char const *) {}, 5);
    return r;
}

//! Locations are kept, too.
std::string loc(Clingo::AST::Node const &n) {
    std::ostringstream o;
    o << n.get<Clingo::Location>(Clingo::AST::Attribute::Location);
    return o.str();
}

//! Rewrite and compare; want holds the allowed sets of results (separated by '|').
void run_rewrite(bool shift, std::string const &text, std::vector<std::vector<std::string>> const &want, bool reject, Results &res) {
    auto enc = [](std::string s) { for (auto &c : s) { if (c == '\n') { c = ' '; } } return s; };
    std::string str = std::string("AST ") + (shift ? "1" : "0") + "@@" + enc(text) + "@@" + (reject ? "1" : "0");
    for (auto &w : want) { str += "@@"; for (auto &s : w) { str += s + "%%"; } }
    set_current(str);
    auto fail = [&](std::string const &kind, std::string const &msg) {
        Violation v(kind, msg + " for statement " + text + (shift ? " with shifting" : ""));
        v.replay = str;
        throw v;
    };
    clingodl_theory_t *th = nullptr;
    clingodl_create(&th);
    std::unique_ptr<clingodl_theory_t, void (*)(clingodl_theory_t *)> guard(th, [](clingodl_theory_t *t) { clingodl_destroy(t); });
    if (shift) { clingodl_configure(th, "shift-constraints", "yes"); }
    auto in = parse(text);
    if (in.size() != 1) { throw std::runtime_error("unexpected number of statements in " + text); }
    auto copy = in[0].deep_copy();
    auto before = in[0].to_string();
    auto where = loc(in[0]);
    Collect c;
    bool ok = clingodl_rewrite_ast(th, in[0].to_c(), &Collect::add, &c);
    res.add("states");
    res.add("transitions", c.nodes.size());
    if (!(in[0] == copy) || in[0].to_string() != before) { fail("input", "the input tree was modified to " + in[0].to_string()); }
    if (reject) {
        if (ok) { fail("accepted", "unsupported shape was accepted: " + (c.nodes.empty() ? "" : c.nodes[0].to_string())); }
        return;
    }
    if (!ok) { fail("rejected", std::string("rewriting failed: ") + (clingo_error_message() ? clingo_error_message() : "?")); }
    std::vector<std::string> got;
    for (auto &n : c.nodes) { got.push_back(n.to_string()); }
    std::string all;
    for (auto &s : got) { all += " " + s; }
    res.outcome(std::hash<std::string>{}(all));
    for (auto &w : want) {
        if (w.size() != got.size()) { continue; }
        std::vector<char> used(got.size(), 0);
        bool match = true;
        for (auto &s : w) {
            auto exp = parse(s);
            if (exp.size() != 1) { throw std::runtime_error("unexpected number of statements in " + s); }
            auto es = exp[0].to_string();
            bool found = false;
            for (size_t i = 0; i < got.size() && !found; ++i) {
                if (!used[i] && got[i] == es && (c.nodes[i] == exp[0])) { used[i] = 1; found = true; }
            }
            match = match && found;
        }
        if (match) {
            for (auto &n : c.nodes) { if (loc(n) != where) { fail("location", "the location changed"); } }
            return;
        }
    }
    fail("rewrite", "result" + all + ", expected e.g. " + (want.empty() ? "" : want[0].empty() ? "nothing" : want[0][0]));
}

//! The name of the difference atom is turned into an external function.
void run_external(std::string const &text, Results &res) {
    using namespace Clingo::AST;
    for (bool shift : {false, true}) {
        set_current("AST " + text);
        clingodl_theory_t *th = nullptr;
        clingodl_create(&th);
        std::unique_ptr<clingodl_theory_t, void (*)(clingodl_theory_t *)> guard(th, [](clingodl_theory_t *t) { clingodl_destroy(t); });
        if (shift) { clingodl_configure(th, "shift-constraints", "yes"); }
        struct Mark {
            Node operator()(Node const &n) {
                if (n.type() != Type::TheoryAtom) { return n.transform_ast(*this); }
                auto r = n.copy();
                auto t = n.get<Node>(Attribute::Term).copy();
                if (t.type() == Type::Function) { t.set(Attribute::External, 1); done = true; }
                r.set(Attribute::Term, t);
                return r;
            }
            bool done{false};
        } mark;
        auto in = mark(parse(text).at(0));
        if (!mark.done) { continue; }
        Collect c;
        bool ok = clingodl_rewrite_ast(th, in.to_c(), &Collect::add, &c);
        res.add("states");
        if (!ok || c.nodes.size() != 1 || !(c.nodes[0] == in)) {
            Violation v("external", "atom named by an external function was rewritten: " + (c.nodes.empty() ? "" : c.nodes[0].to_string()));
            v.replay = "AST " + text;
            throw v;
        }
    }
}

//! Boolean constants with all signs as heads (the parser simplifies them).
void run_signs(std::string const &body, Results &res) {
    using namespace Clingo::AST;
    for (bool shift : {false, true}) {
        auto rewrite = [&](Node const &in) {
            clingodl_theory_t *th = nullptr;
            clingodl_create(&th);
            std::unique_ptr<clingodl_theory_t, void (*)(clingodl_theory_t *)> guard(th, [](clingodl_theory_t *t) { clingodl_destroy(t); });
            if (shift) { clingodl_configure(th, "shift-constraints", "yes"); }
            Collect c;
            std::vector<std::string> r;
            if (!clingodl_rewrite_ast(th, const_cast<clingo_ast_t *>(in.to_c()), &Collect::add, &c)) { return std::vector<std::string>{"error"}; }
            for (auto &n : c.nodes) {
                auto t = n.to_string();
                auto p = t.find(":-");
                if (t.compare(0, 1, "&") != 0 && p != std::string::npos) { t = t.substr(p); } // drop the head
                r.push_back(t);
            }
            return r;
        };
        for (int value : {0, 1}) {
            for (int sign : {0, 1, 2}) {
                set_current("AST SIGN " + body);
                auto in = parse("#true :- " + body).at(0).copy();
                auto head = in.get<Node>(Attribute::Head).copy();
                auto atom = head.get<Node>(Attribute::Atom).copy();
                atom.set(Attribute::Value, value);
                head.set(Attribute::Atom, atom);
                head.set(Attribute::Sign, sign);
                in.set(Attribute::Head, head);
                bool falsity = sign == 1 ? value == 1 : value == 0;
                auto got = rewrite(in), want = rewrite(parse((falsity ? "#false :- " : "h :- ") + body).at(0));
                res.add("states");
                if (got != want) {
                    Violation v("sign", "rewriting with head value " + std::to_string(value) + " and sign " + std::to_string(sign) + " gives " + (got.empty() ? "nothing" : got[0]) + " but expected " + (want.empty() ? "nothing" : want[0]));
                    v.replay = "AST SIGN " + body;
                    throw v;
                }
            }
        }
    }
}

//! Statement kinds: text before the body, separator, text after.
struct Shape {
    Frag head;
    std::string sep, post;
    bool integrity{false};
};

void run_shape(Shape const &sh, std::vector<Frag> const &body, bool shift, Results &res) {
    auto compose = [&](std::string const &h, std::vector<std::string> const &b) {
        std::string t = h;
        for (size_t i = 0; i < b.size(); ++i) { t += (i == 0 ? sh.sep : "; ") + b[i]; }
        if (b.empty() && sh.sep != " :- ") { t += sh.sep; }
        return t + sh.post;
    };
    std::vector<std::string> texts;
    for (auto &f : body) { texts.push_back(f.text); }
    auto text = compose(sh.head.text, texts);
    // all instances
    std::vector<std::vector<std::string>> want;
    std::vector<size_t> moves;
    bool sft = shift && sh.integrity;
    if (sft) { for (size_t i = 0; i < body.size(); ++i) { if (!body[i].shifted.empty()) { moves.push_back(i); } } }
    if (moves.empty()) { moves.push_back(body.size()); }
    for (auto mv : moves) {
        std::vector<std::string> w;
        std::vector<size_t> pick(body.size() + 1, 0);
        for (;;) {
            std::vector<std::string> b;
            for (size_t i = 0; i < body.size(); ++i) { if (i != mv) { b.push_back(body[i].inst[pick[i]]); } }
            w.push_back(compose(mv < body.size() ? body[mv].shifted[pick[mv]] : sh.head.inst[pick[body.size()]], b));
            size_t i = 0;
            while (i < pick.size() && ++pick[i] == (i < body.size() ? body[i].inst.size() : sh.head.inst.size())) { pick[i++] = 0; }
            if (i == pick.size()) { break; }
        }
        want.push_back(std::move(w));
    }
    run_rewrite(shift, text, want, false, res);
}

} // namespace

void check_rewrite(Ctx &x, std::string const &) {
    std::vector<Frag> bodies{
        same("p"), same("not q(X,1)"), same("not not r"), pool("p(1;2)", {"p(1)", "p(2)"}), same("X = 1..3"), same("X < Y+1"), same("#true"), same("not #false"),
        same("&sum{ x; y } <= 3"), same("not &diff2{ a-b } <= 3"), same("&diff(1){ a-b } <= 3"), same("&diff(a){ a-b; c : p } <= 3"), same("&__diff_b{ a-b } <= 3"), same("#sum { X,Y : s(X,Y) } < 3"), same("not 1 { s(X) : t(X) } 2"), same("p(X) : q(X), not r"),
        same("diff(a,b)"), same("-diff"),
        body_diff("", "a-b", "<=", "3"), body_diff("not ", "a-b", "<", "-X*2"), body_diff("not not ", "f(X,Y)-(1,2)", "=", "c-d"), body_diff("", "X", "!=", "\"1.5\""), body_diff("not ", "a-b+c*2", ">=", "0"), body_diff("not not ", "a-b", ">", "-(-3)"), body_diff("not ", "a-b", "!=", "1"), body_diff("", "a(X)", "=", "1"),
        pool("p(1;2),not q(3;4)", {"p(1), not q(3)", "p(1), not q(4)", "p(2), not q(3)", "p(2), not q(4)"}),
    };
    std::vector<Frag> heads{same("h"), same("h(X)"), pool("h(1;2)", {"h(1)", "h(2)"}), same("{ h; g(X) : t(X) }"), same("1 <= { h } <= 2"), same("h; g"), same("h : t; g : not u"), same("not h"), same("#true"), same("not #false"), same("&sum{ x } <= 3"), same("&diff(1){ a-b } <= 3"), same("not not #true"),
                            head_diff("a-b", "<=", "3"), head_diff("X-f(Y)", "!=", "-2*X"), head_diff("(a,b)", "=", "c"), head_diff("0-a", ">", "1"), same("#sum { 1 : h } <= 1"), same("X = Y")};
    std::vector<Shape> shapes;
    for (auto &h : heads) { shapes.push_back({h, " :- ", ".", false}); }
    for (auto s : {"", "#false", "not #true", "not not #false"}) { shapes.push_back({same(s), " :- ", ".", true}); }
    std::vector<Shape> others{{same(":~ "), "", ". [1@2,X]"}, {same("#show t(X)"), " : ", "."}, {same("#external e(X)"), " : ", ". [true]"}, {same("#edge (u,v)"), " : ", "."}, {same("#heuristic e"), " : ", ". [1@2,true]"}, {same("#project e"), " : ", "."}, {same("#minimize{ 1"), " : ", " }"}};
    bool T = x.thorough;
    size_t n = 0;
    auto go = [&](Shape const &s, std::vector<Frag> const &b, bool shift) {
        if (!x.mine()) { return; }
        if (x.res.samples.size() < 2 && x.idx % 37 == 1) { std::string t = s.head.text + s.sep; for (auto &f : b) { t += f.text + "; "; } x.res.samples.push_back(t + s.post); }
        run_shape(s, b, shift, x.res);
    };
    for (bool shift : {false, true}) {
        for (auto &s : shapes) {
            if (!(s.head.text.empty())) { go(s, {}, shift); }
            for (auto &a : bodies) {
                go(s, {a}, shift);
                for (auto &b : bodies) {
                    go(s, {a, b}, shift);
                    for (auto &c : bodies) { go(s, {a, b, c}, shift); }
                }
            }
        }
        for (auto &s : others) {
            if (s.head.text.compare(0, 10, "#minimize{") == 0) { continue; }
            for (auto &a : bodies) {
                go(s, {a}, shift);
                for (auto &b : bodies) { go(s, {a, b}, shift); if (T) { for (auto &c : bodies) { go(s, {a, b, c}, shift); } } }
            }
        }
    }
    // statements without bodies
    for (auto s : {"#show.", "#show p/1.", "#defined p/1.", "#const c = diff.", "#program diff(a,b).", "#theory diff { t { + : 1, binary, left }; &diff/0 : t, {<=}, t, any }.", "#script (lua) x #end.", "#project diff/2.", "#minimize { X,Y : p(X,Y) }.", "#external diff.", "#show diff : p."}) {
        for (bool shift : {false, true}) {
            if (!x.mine()) { continue; }
            try { if (parse(s).size() != 1) { continue; } } catch (std::exception const &) { continue; }
            run_rewrite(shift, s, {{s}}, false, x.res);
        }
    }
    // unsupported shapes in every position
    for (auto a : {"&diff{} <= 1", "&diff{a;b} <= 1", "&diff{a,b} <= 1", "&diff{a : p} <= 1", "&diff{ : p} <= 1", "&diff{a-b; c-d; e} < 1", "&diff{a-b; a-b} <= 1", "&diff{a : p(X), q} = 1", "&diff{:} <= 1"}) {
        for (auto w : {"@.", "@ :- p.", "h :- @.", "h :- p, not @.", ":- not not @, q.", "{h} :- q(1;2), @.", ":~ @. [1]", "#show x : p, @.", "&diff{a-b} <= 1 :- @.", "@ :- &diff{a-b} <= 1.", "h :- &diff{a-b} <= 1, @.", ":- @, &diff{a-b} <= 1."}) {
            for (bool shift : {false, true}) {
                if (!x.mine()) { continue; }
                std::string t = w;
                t.replace(t.find('@'), 1, a);
                try { parse(t); } catch (std::exception const &) { continue; }
                run_rewrite(shift, t, {}, true, x.res);
            }
        }
    }
    // a theory atom named by an external function is no difference atom
    for (auto t : {"&diff{a-b} <= 1.", "h :- not &diff{a-b} <= 1.", ":- &diff{a-b} <= 1, p."}) { if (x.mine()) { run_external(t, x.res); } }
    for (auto t : {"&diff{a-b} <= 1.", "p, not &diff{a-b} <= 1.", "q, &diff{a-b} <= 1, &diff{b-a} > 2.", "not not &diff{a-b} != 1, p.", "p."}) { if (x.mine()) { run_signs(t, x.res); } }
    // missing guards cannot be shifted
    for (auto t : {":- &diff{a-b}.", ":- not &diff{a-b}, p."}) { if (x.mine()) { run_rewrite(true, t, {}, true, x.res); } }
}

void replay_rewrite(std::string const &s, Results &res) {
    std::vector<std::string> f;
    if (s.compare(0, 5, "SIGN ") == 0) { run_signs(s.substr(5), res); return; }
    if (s.find("@@") == std::string::npos) { run_external(s, res); return; }
    for (size_t p = 0;;) {
        auto q = s.find("@@", p);
        f.push_back(s.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) { break; }
        p = q + 2;
    }
    std::vector<std::vector<std::string>> want;
    for (size_t i = 3; i < f.size(); ++i) {
        std::vector<std::string> w;
        for (size_t p = 0;;) {
            auto q = f[i].find("%%", p);
            if (q == std::string::npos) { break; }
            w.push_back(f[i].substr(p, q - p));
            p = q + 2;
        }
        want.push_back(w);
    }
    run_rewrite(f.at(0) == "1", f.at(1), want, f.at(2) == "1", res);
}

} // namespace e2e
