#!/usr/bin/env python3
"""Checks of the command line application: bounded programs and command lines are enumerated exhaustively, each is run
with the application built from the current tree, and the results are compared with brute force references."""
import argparse
import itertools
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from multiprocessing import Process

DEADLINE = [0.0]


class Violation(Exception):
    pass


class Stop(Exception):
    pass


class App:
    def __init__(self, path, tmp):
        self.path = path
        self.tmp = tmp

    def run(self, args, files, stdin=None, cwd_files=()):
        for name, text in list(files) + list(cwd_files):
            with open(os.path.join(self.tmp, name), "w") as f:
                f.write(text)
        cmd = [self.path] + [n for n, _ in files] + args + ["--outf=2"]
        try:
            r = subprocess.run(cmd, input=stdin if stdin is not None else "", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               universal_newlines=True, cwd=self.tmp, timeout=60)
        except subprocess.TimeoutExpired:
            raise Violation("the application did not terminate")
        return Out(r.returncode, r.stdout, r.stderr)


class Out:
    def __init__(self, rc, out, err):
        self.rc = rc
        self.err = err
        if rc < 0 or rc in (134, 136, 139):
            raise Violation("crash: return code %d %s" % (rc, err[-200:]))
        self.ok = rc in (10, 20, 30)
        self.answers = []
        self.steps = []
        self.stats = {}
        if self.ok:
            d = json.loads(out)
            for c in d["Call"]:
                w = [frozenset(a for a in x.get("Value", []) if not a.startswith("__")) for x in c.get("Witnesses", [])]
                self.steps.append(w)
                self.answers += w
            self.result = d["Result"]
            self.stats = d.get("Stats", {})


# ---------------------------------------------------------------- reference
NEG = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}


def le(c):
    """Constraint u - v rel w as list of (u, v, w) meaning u - v <= w."""
    u, v, rel, w = c
    return {"<=": [(u, v, w)], "<": [(u, v, w - 1)], ">=": [(v, u, -w)], ">": [(v, u, -w - 1)],
            "=": [(u, v, w), (v, u, -w)]}[rel]


def components(cons):
    comp = {}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for u, v, _, _ in cons:
        for x in (u, v):
            if x != "0":
                comp.setdefault(x, x)
        if "0" not in (u, v):
            comp[find(u)] = find(v)
    return {x: find(x) for x in comp}


def least(cons, edges, cc=True):
    """The least solution of the active edges per component, or None."""
    comp = components(cons)
    if not cc:
        comp = {x: 0 for x in comp}
    node = lambda x, other: ("0", comp[other]) if x == "0" else (x, None)
    val = {}
    for x, c in comp.items():
        val[(x, None)] = 0
        val[("0", c)] = 0
    es = [(node(u, v), node(v, u), w) for u, v, w in edges if u != "0" or v != "0"]
    for _ in range(len(val) + 1):
        ch = False
        for u, v, w in es:
            if val[v] < val[u] - w:
                val[v] = val[u] - w
                ch = True
        if not ch:
            used = {x for e in edges for x in e[:2]}
            return {x: val[(x, None)] - val[("0", c)] for x, c in comp.items() if x in used}
    return None


class Prog:
    """Choices c1..cn and constraints (kind, (u, v, rel, w), index of choice or 0)."""

    def __init__(self, n, cons):
        self.n = n
        self.cons = cons

    def lines(self):
        r = []
        if self.n:
            r.append("{" + ";".join("c%d" % i for i in range(1, self.n + 1)) + "}.")
        for i, (kind, (u, v, rel, w), c) in enumerate(self.cons):
            t = "&diff { %s - %s } %s %d" % (u, v, rel, w)
            if kind == "head":
                r.append(t + (" :- c%d." % c if c else "."))
            else:
                r.append("b%d :- %s%s." % (i, t, ", c%d" % c if c else ""))
        return r

    def text(self):
        return "\n".join(self.lines()) + "\n"

    def answers(self, cc=True):
        res = set()
        cons = [c for _, c, _ in self.cons]
        bodies = [i for i, (k, _, _) in enumerate(self.cons) if k == "body"]
        for sel in itertools.product([False, True], repeat=self.n):
            for tb in itertools.product([False, True], repeat=len(bodies)):
                atoms = ["c%d" % (i + 1) for i in range(self.n) if sel[i]]
                edges = []
                truth = dict(zip(bodies, tb))
                for i, (k, c, a) in enumerate(self.cons):
                    on = a == 0 or sel[a - 1]
                    if k == "head":
                        if on:
                            edges += le(c)
                    else:
                        u, v, rel, w = c
                        edges += le(c if truth[i] else (u, v, NEG[rel], w))
                        if truth[i] and on:
                            atoms.append("b%d" % i)
                val = least(cons, edges, cc)
                if val is not None:
                    res.add(frozenset(atoms + ["dl(%s,%d)" % x for x in val.items()]))
        return res


def show(xs):
    return "; ".join(sorted(" ".join(sorted(x)) for x in xs))


def compare(out, want, dup=True):
    if not out.ok:
        raise Violation("failed with %d: %s" % (out.rc, out.err[:300]))
    got = set(out.answers)
    if got != want:
        raise Violation("answers differ: got %s expected %s" % (show(got), show(want)))
    if dup and len(got) != len(out.answers):
        raise Violation("duplicate answers: " + show(out.answers))


def programs(tier, n_small=2):
    """Bounded programs; all of size up to two, then all triples over fewer weights."""
    T = tier == "thorough"
    pairs = [("x", "y"), ("y", "x"), ("x", "0"), ("0", "x"), ("y", "z")]
    rels = ["<=", ">", "="]
    heads = [("head", (u, v, r, w), c) for u, v in pairs for r in rels for w in (-2, 1) for c in (0, 1)]
    bodies = [("body", (u, v, r, w), c) for u, v in pairs for r in ("<=", ">") for w in (-1, 2) for c in (0, 1)]
    one = heads + bodies
    for c in one:
        yield Prog(1, [c])
    for a, b in itertools.combinations(one, 2):
        if a[0] == b[0] == "body" and not T and a[1][2] == b[1][2]:
            continue
        b2 = (b[0], b[1], 2 if b[2] else 0)
        yield Prog(2, [a, b2])
    tri = [("head", (u, v, r, w), 1) for u, v in pairs + [("z", "x")] for r, w in (("<=", -2), ("<=", 1), (">", 1))]
    for t in itertools.combinations(tri, 3):
        yield Prog(3, [(k, c, i + 1) for i, (k, c, _) in enumerate(t)])


# ---------------------------------------------------------------- scenarios per property
def spec_run(app, s):
    """Execute one scenario given as JSON compatible dictionary."""
    kind = s["kind"]
    if kind == "answers":
        p = Prog(s["n"], [(k, tuple(c), a) for k, c, a in s["cons"]])
        want = p.answers(s.get("cc", True))
        out = app.run(["0"] + s["args"], [("p.lp", p.text())])
        compare(out, want, not s.get("nodup"))
        return len(want)
    if kind == "split":
        p = Prog(s["n"], [(k, tuple(c), a) for k, c, a in s["cons"]])
        lines = p.lines()
        want = p.answers()
        parts = [[], [], []]
        for l, w in zip(lines, s["where"]):
            parts[w].append(l)
        a, b, c = ["\n".join(x) + "\n" for x in parts]
        how = s["how"]
        if how == "files":
            out = app.run(["0"], [("a.lp", a), ("b.lp", b), ("c.lp", c)])
        elif how == "include":
            out = app.run(["0"], [("a.lp", a + '#include "b.lp".\n')], cwd_files=[("b.lp", b + '#include "c.lp".\n'), ("c.lp", c)])
        elif how == "stdin":
            out = app.run(["-", "0"], [("a.lp", a), ("b.lp", b)], stdin=c)
        else:
            out = app.run(["0"], [], stdin=a + b + c)
        compare(out, want)
        return len(want)
    if kind == "opt":
        return opt(app, s)
    if kind == "value":
        return value(app, s)
    if kind == "stats":
        return stats(app, s)
    if kind == "reject":
        out = app.run(["0"], [("p.lp", s["text"])])
        if out.ok:
            raise Violation("accepted: " + s["text"])
        if not out.err.strip():
            raise Violation("no message for rejected program")
        return 1
    raise ValueError(kind)


def opt(app, s):
    """Attainable values of the variable: one choice per value."""
    vals, var, init, factor, flags = s["vals"], s["var"], s["init"], s["factor"], s["args"]
    text = "1 { " + ";".join("v(%d)" % v for v in vals) + " } 1.\n" if vals else ":- not a.\n"
    text += "&diff { %s } = X :- v(X).\n" % var
    if not vals:
        text += "{a}. &diff { %s } >= 3 :- a.  &diff { %s } <= 2.\n" % (var, var)
    text += "".join("&diff { y%d - %s } <= -%d.\n" % (i, var, i) for i in range(s.get("extra", 0)))
    args = ["--minimize-variable=" + var + ("" if init is None else ",%d" % init), "--stats=2"] + flags
    if factor is not None:
        args.append("--minimize-factor=" + factor)
    out = app.run(args, [("p.lp", text)])
    if not out.ok:
        raise Violation("optimization failed with %d: %s" % (out.rc, out.err[:300]))
    feasible = [v for v in vals if init is None or v <= init]
    got = []
    for a in out.answers:
        v = [int(x[len("dl(" + var + ","):-1]) for x in a if x.startswith("dl(" + var + ",")]
        if len(v) != 1:
            raise Violation("value of the variable not shown: " + show([a]))
        got.append(v[0])
    if any(b >= a for a, b in zip(got, got[1:])):
        raise Violation("values do not decrease: %s" % got)
    if (got[-1] if got else None) != (min(feasible) if feasible else None):
        raise Violation("minimum %s expected %s" % (got, min(feasible) if feasible else None))
    dl = out.stats.get("DifferenceLogic", {})
    if feasible:
        # (values are printed with six digits)
        if float("%g" % dl.get("Optimization", math.nan)) != float("%g" % min(feasible)):
            raise Violation("reported optimization value %s expected %s" % (dl.get("Optimization"), min(feasible)))
        if float("%g" % dl.get("Lower bound", -1 << 40)) > float("%g" % min(feasible)):
            raise Violation("reported lower bound %s above minimum %s" % (dl["Lower bound"], min(feasible)))
    return len(got) + 1


MODES = ["no", "inverse", "partial", "partial+", "zero", "full"]
SORTS = ["no", "weight", "weight-reversed", "potential", "potential-reversed"]


def number(x, top=2**64):
    return re.fullmatch("[0-9]+", x) is not None and int(x) < top


def accepts(key, val):
    """Whether the value has to be accepted; None if this is not specified."""
    f, sep, t = val.partition(",")
    if key in ("propagate", "sort-edges", "propagate-root", "propagate-budget"):
        if sep and not number(t, 64):
            return False
        return f.lower() in MODES if key == "propagate" else f.lower() in SORTS if key == "sort-edges" else number(f)
    if key == "add-mutexes":
        return number(f) and (not sep or number(t))
    if key == "dl-heuristic":
        return val.lower() in ("none", "min", "max", "no")
    if key == "minimize-factor":
        m = re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", val)
        if m is None:
            return False if re.match(r"[-+.0-9a-zA-Z]*$", val) and "x" not in val.lower() and "p" not in val.lower() or val == "" else None
        return 1 <= float(val) <= 2147483647
    if key == "minimize-variable":
        return variable(val)
    return None


def variable(val):
    """Grammar: term [, integer] where terms are built from names, integers, strings, and parentheses."""
    toks = re.findall(r'[a-z][a-z0-9]*|-?\d+|"[^"]*"|[(),]|.', val)
    pos = [0]

    class Bad(Exception):
        pass

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def args():
        """Argument list up to the closing parenthesis; returns number of arguments and whether it has a trailing comma."""
        n = 0
        if peek() == ")":
            pos[0] += 1
            return 0, False
        if peek() == ",":
            # the empty tuple
            pos[0] += 1
            if peek() != ")":
                raise Bad()
            pos[0] += 1
            return 0, True
        while True:
            term()
            n += 1
            if peek() == ",":
                pos[0] += 1
                if peek() == ")":
                    pos[0] += 1
                    return n, True
            elif peek() == ")":
                pos[0] += 1
                return n, False
            else:
                raise Bad()

    def term():
        t = peek()
        pos[0] += 1
        if t is None:
            raise Bad()
        if re.fullmatch(r"[a-z][a-z0-9]*", t):
            if peek() == "(":
                pos[0] += 1
                n, trail = args()
                if trail:
                    raise Bad()
        elif re.fullmatch(r"-?\d+", t):
            if not -2**31 < int(t) < 2**31:
                raise Bad()
        elif t[0] == '"' and len(t) > 1:
            pass
        elif t == "(":
            args()
        else:
            raise Bad()
    try:
        term()
        if peek() is None:
            return True
        if peek() != ",":
            return False
        rest = toks[pos[0] + 1:]
        return len(rest) == 1 and re.fullmatch(r"-?\d+", rest[0]) is not None and -2**31 < int(rest[0]) < 2**31
    except Bad:
        return False


def value(app, s):
    key, val = s["key"], s["val"]
    want = accepts(key, val)
    # (there is no answer because minimization of unbounded variables does not end)
    text = "&diff { x } >= 1. &diff { y - z } <= 1 :- c. {c}." + (":- not d.\n" if key.startswith("min") else "\n")
    args = ["--%s=%s" % (key, val)]
    if key == "minimize-factor":
        args.append("--minimize-variable=x")
    ok = app.run(args, [("p.lp", text)]).ok
    if ok and not want and want is not None:
        raise Violation("accepted value '%s' of %s" % (val, key))
    if not ok and want:
        raise Violation("rejected value '%s' of %s: %s" % (val, key, out.err[:200]))
    return 1


def stats(app, s):
    p = Prog(s["n"], [(k, tuple(c), a) for k, c, a in s["cons"]])
    want = p.answers()
    out = app.run(["0", "--stats=2", "-t%d" % s["threads"]] + s["args"], [("p.lp", p.text())])
    compare(out, want, s["threads"] == 1)
    dl = out.stats.get("DifferenceLogic")
    if not want:
        return 1
    if dl is None:
        raise Violation("no statistics")
    cons = [c for _, c, _ in p.cons]
    comp = components(cons)
    ccs = len(set(comp.values()))
    if dl["CCs"] != ccs:
        raise Violation("CCs %s expected %s" % (dl["CCs"], ccs))
    if len(dl["Thread"]) != s["threads"]:
        raise Violation("statistics of %d of %d threads" % (len(dl["Thread"]), s["threads"]))
    for t in dl["Thread"]:
        if len(t) != 14:
            raise Violation("thread statistics incomplete: %s" % t)
    return 2


def scenarios(prop, tier):
    T = tier == "thorough"
    if prop == "C08":
        table = [[], ["-t2"], ["--propagate=full"], ["--propagate=zero,1", "--propagate=partial+", "-t3"], ["--propagate-root=2", "--propagate-budget=3"],
                 ["--sort-edges=potential", "--dl-heuristic=max"], ["--add-mutexes=3,50"], ["--dl-heuristic=min", "--propagate=inverse,0"],
                 ["--configuration=many", "-t4", "--propagate=partial"], ["--sort-edges=no,1", "--sort-edges=potential-reversed", "-t2,split"],
                 ["--restart-on-model", "--propagate=full", "--configuration=frumpy"], ["--shift-constraints"], ["--no-compute-components"]]
        for i, p in enumerate(programs(tier)):
            # quick: every program under a rotating selection
            for j, args in enumerate(table):
                if T or (i + j) % 2 == 0:
                    yield dict(kind="answers", n=p.n, cons=p.cons, args=args, cc="--no-compute-components" not in args, nodup="split" in " ".join(args))
    elif prop == "C12":
        for i, p in enumerate(programs(tier)):
            if True:
                yield dict(kind="answers", n=p.n, cons=p.cons, args=[])
    elif prop == "C15":
        for i, p in enumerate(programs(tier)):
            k = len(p.lines())
            for where in itertools.product(range(3), repeat=k):
                for j, how in enumerate(("files", "include", "stdin", "pipe")):
                    if (i + sum(x * 3**e for e, x in enumerate(where)) + j * 7) % (7 if T else 23) == 0:
                        yield dict(kind="split", n=p.n, cons=p.cons, where=list(where), how=how)
    elif prop == "C17":
        values = [-5, -2, 0, 1, 3, 4, 9]
        n = 0
        sets = [[]] + [list(c) for k in (1, 2, 3, 4) for c in itertools.combinations(values, k)]
        sets += [[-1000000, 0], [-1000000000, -3, 7], [2147483640], [0, 2147483640], [-7, 1000000000]]
        for vals in sets:
            for init in (None, -6, -5, -1, 0, 3, 8, 100, 2147483646):
                for factor in (None, "1", "1.5", "2", "10", "1000000", "2147483647"):
                    if any(abs(v) > 1000 for v in vals) and factor in (None, "1") and init != -1:
                        # steps of one are slow only if there are many values to visit
                        pass
                    for var in ("x", "f(1)", "(a,b)"):
                        for args in ([], ["--configuration=crafty", "--sign-def=pos"], ["-t2"], ["--sign-def=neg", "--propagate=full"]):
                            n += 1
                            if T and n % 2 == 0 or n % 5 == 0:
                                yield dict(kind="opt", vals=vals, var=var, init=init, factor=factor, args=args, extra=n // 5 % 3)
    elif prop == "C18":
        toks = {
            "propagate": ["no", "inverse", "partial", "+", "full", "ZERO", ",", "0", "63", "64", " "],
            "sort-edges": ["no", "weight", "-reversed", "Potential", ",", "1", "64", "x"],
            "propagate-root": ["0", "7", "18446744073709551615", "18446744073709551616", ",", "63", "64", "-", "x"],
            "propagate-budget": ["0", "7", "18446744073709551615", "18446744073709551616", ",", "63", "64", "-", "x"],
            "add-mutexes": ["0", "2", "18446744073709551615", "18446744073709551616", ",", "-", "x"],
            "dl-heuristic": ["none", "no", "min", "MAX", ",", "1"],
            "minimize-factor": ["1", "0", "2147483647", "8", ".", "-", "+", "e", "E", "5", "x", "f"],
            "minimize-variable": ["x", "f", "3", "-3", "2147483647", "(", ")", ",", '"s"', "1"],
        }
        for key, ts in toks.items():
            depth = 4 if T or key == "minimize-variable" else 3
            for d in range(0, depth + 1):
                for x in itertools.product(ts, repeat=d):
                    v = "".join(x)
                    if key == "minimize-variable":
                        # ambiguous tokens (numbers and names glued together) are left out
                        if re.search(r'[a-z0-9"]-|[a-z"][0-9]*[a-z"]|[0-9]["a-z(]|"\(|\)[a-z0-9"(-]|"[0-9]|[a-z][0-9]', v.replace('"s"', '"')):
                            continue
                        if re.search(r"\d{11,}", v):
                            continue
                    yield dict(kind="value", key=key, val=v)
        # more arguments than a variable and an initial bound
        for v in ("x,3", "x,1,2", "x,3,-3", "f(1),3,4", "x,y", "x,y,3", "x,3,y", "x,3,", "x,1,2,3", "(x,y),3", "(x,3)", "x,3,4,y", '"s",3,4'):
            yield dict(kind="value", key="minimize-variable", val=v)
    elif prop == "C20":
        for i, p in enumerate(programs(tier)):
            for t in (1, 2, 3):
                if (i + t) % 1 == 0:
                    yield dict(kind="stats", n=p.n, cons=p.cons, threads=t, args=[[], ["--propagate=full"], ["--add-mutexes=2,20"]][i % 3])
    elif prop == "C14":
        terms = ["x*y", "x+y", "2*x", "x-y-z", "x/0", "1/0", "x**2", "x-2147483648", "x-y-2147483648", "x*2147483648", "-x-y", "x/2-y", "x/y", "x \\ y", "3\\0", "f(x-y,1/0)", "x+x", "-y-z+0*x"]
        for t in terms:
            for rel in ("<=", ">", "=", "!="):
                for g in ("1", "-3", "2147483647", "a"):
                    for form in ("&diff { %s } %s %s.", "{c}. &diff { %s } %s %s :- c.", ":- &diff { %s } %s %s.", "#program base. d :- &diff { %s } %s %s."):
                        yield dict(kind="reject", text=form % (t, rel, g))
        for form in ("&diff { x-y : c; y-x } <= 1. {c}.", "&diff { } <= 1.", "&diff { x-y }.", "&diff { x-y, 1 } <= 1.", "&diff { x-y; y-z } <= 1.", "&diff { x-y } < = 1.", "&diff { x-y } <= 1/0.",
                     "&diff { x - y } <= 2147483648.", "&diff(1) { x-y } <= 1.", "&dif { x-y } <= 1.", "&diff { x-y } <> 1."):
            yield dict(kind="reject", text=form)



def work(a, w, out):
    n = dict(states=0, transitions=0, scenarios=0)
    samples = []
    violation = None
    tmp = tempfile.mkdtemp(prefix="cli%d-" % w, dir=os.path.dirname(os.path.abspath(out)))
    app = App(a.app, tmp)
    try:
        for i, s in enumerate(scenarios(a.prop, a.tier)):
            if i % a.workers != w:
                continue
            if a.limit and time.time() - a.t0 > a.limit:
                n["capped"] = 1
                break
            if os.path.exists(out + ".stop"):
                break
            try:
                n["transitions"] += spec_run(app, s)
            except Violation as e:
                open(out + ".stop", "w").close()
                violation = dict(kind="cli", msg=str(e) + " " + json.dumps(s), replay=json.dumps(s))
                break
            n["states"] += 1
            n["scenarios"] += 1
            if len(samples) < 2:
                samples.append(json.dumps(s))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with open("%s.w%d" % (out, w), "w") as f:
        json.dump(dict(n=n, samples=samples, outcomes=[], violation=violation), f)


def main():
    ap = argparse.ArgumentParser()
    for x in "app prop out skip replay".split():
        ap.add_argument("--" + x)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--limit", type=float, default=0)
    a = ap.parse_args()
    a.t0 = time.time()
    if a.replay:
        tmp = tempfile.mkdtemp(prefix="cli-", dir=os.path.dirname(os.path.abspath(a.app)))
        try:
            spec_run(App(a.app, tmp), json.loads(open(a.replay).readline()))
        except Violation as e:
            print(e)
            return 1
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("no violation")
        return 0
    ps = [Process(target=work, args=(a, w, a.out)) for w in range(a.workers)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    return 0


sys.exit(main())
