"""Discharging: unfolding of logic functions, type facts, lemmas, and the solver."""
import os, re, subprocess, tempfile, time
import z3
from core import *

STATS = {"queries": 0, "time": 0.0}


# clang accessors that never give a null pointer on a tree the front end built (trusted)
NONNULL = set(("clang::CXXTryStmt::getTryBlock clang::CXXTryStmt::getHandler clang::CXXCatchStmt::getHandlerBlock clang::ObjCAtTryStmt::getCatchStmt "
    "clang::ObjCAtSynchronizedStmt::getSynchBody clang::ObjCAtTryStmt::getTryBody "
    "clang::IfStmt::getCond clang::IfStmt::getThen clang::WhileStmt::getCond clang::WhileStmt::getBody clang::DoStmt::getCond clang::DoStmt::getBody clang::ForStmt::getBody "
    "clang::SwitchStmt::getCond clang::SwitchStmt::getBody clang::BinaryOperator::getLHS clang::BinaryOperator::getRHS clang::UnaryOperator::getSubExpr clang::ParenExpr::getSubExpr "
    "clang::CastExpr::getSubExpr clang::ConditionalOperator::getCond clang::ConditionalOperator::getTrueExpr clang::ConditionalOperator::getFalseExpr").split())
NONNULL_UF = {n.replace("::", "_") + "_0" for n in NONNULL}
# sequences of clang nodes without null elements
NONNULL_SEQ = {"seq_CXXTryStmt_handler", "seq_ObjCAtTryStmt_catch", "seq_CompoundStmt_body"}


def sat(solver):
    try: return solver.check()
    except z3.Z3Exception: return z3.unknown


def apps(terms, seen, out, want):
    """collect applications (decl name in want(name)) under terms"""
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen[i] = t
        if z3.is_app(t):
            out.append(t)
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return out


def subst_body(E, L, app):
    n = len(L["formals"])
    args = app.children()
    pairs = list(zip(L["formals"], args[:n])) + list(zip(L["hformals"], args[n:]))
    return z3.simplify(z3.substitute(L["body"], *pairs))


class Context:
    """axioms relevant to terms: unfoldings, type facts, lemma instances; can be extended"""

    def __init__(self, E, depth, cap, base=None):
        self.E, self.depth, self.cap = E, depth, cap
        self.seen = {}
        self.done = dict(base.done) if base else {}
        self.base = base
        self.nun = 0
        self.elems = False

    def add(self, terms):
        E, depth = self.E, self.depth
        ax, frontier = [], list(terms)
        for d in range(depth + 1):
            new = apps(frontier, self.seen, [], None)
            frontier = []
            for t in new:
                dn = t.decl()
                k = dn.kind()
                i = t.get_id()
                if i in E.termfacts and E.termfacts[i][0].eq(t): ax.append(E.termfacts[i][1])
                if k == z3.Z3_OP_SEQ_LENGTH:
                    ax.append(t <= (1 << 31) - 1)
                if self.elems and t.num_args() == 2 and t.sort() == z3.IntSort() and dn.name().startswith("seq.nth") and t.arg(0).decl().name() in NONNULL_SEQ: ax.append(t >= 1)
                if k != z3.Z3_OP_UNINTERPRETED:
                    if dn.name() == "str.to_code": ax.append(t <= 255)
                    continue
                if t.num_args() == 0: continue
                name = dn.name()
                if name in NONNULL_UF: ax.append(t != 0)
                ti = E.ufret.get(name)
                if ti is not None:
                    f = E.typefact(t, ti)
                    if f is not None: ax.append(f)
                if d >= depth: continue
                if name in E.schemas:
                    for sch in E.schemas[name]:
                        f = sch(t)
                        if f is not None:
                            ax.append(f); frontier.append(f)
                L = E.logic.get(name)
                if L is not None and L["body"] is not None:
                    f = self.done.get(i)
                    if f is None:
                        if self.nun >= self.cap: continue
                        f = self.done[i] = t == subst_body(E, L, t)
                        ax.append(f)
                        self.nun += 1
                    frontier.append(f)
            if not frontier: break
        return ax


def context(E, terms, depth=3, cap=400):
    c = Context(E, depth, cap)
    c.elems = True
    return c.add(terms)


def cvc5_start(solver_text, rlimit, tlimit):
    """a cvc5 process deciding an SMT-LIB text"""
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write("(set-logic ALL)\n" + solver_text)
    f.close()
    p = subprocess.Popen(["cvc5", "--strings-exp", "--rlimit=%d" % rlimit, "--tlimit=%d" % (tlimit * 1000), f.name],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p, f.name


def cvc5_result(h):
    p, name = h
    out = p.communicate()[0]
    os.unlink(name)
    r = out.split("\n")[0].strip() if out else ""
    if r in ("sat", "unsat"): return r
    if "interrupted by timeout" in out: return "timeout"
    return "unknown"


def seq_conditions(g):
    """conditions of the sequence-valued case distinctions in a goal"""
    out, seen = [], set()
    for t in apps([g], {}, [], None):
        if t.decl().kind() == z3.Z3_OP_ITE and isinstance(t.sort(), z3.SeqSortRef):
            c = t.arg(0)
            while z3.is_not(c): c = c.arg(0)
            if c.get_id() not in seen: seen.add(c.get_id()); out.append(c)
    return out


def cases(g, lits, out, fuel, prune):
    """splits a goal over its sequence-valued case distinctions; leaves that simplify to true are dropped"""
    if is_true(g): return fuel
    cs = seq_conditions(g)
    inner = [c for c in cs if not seq_conditions(c)] or cs
    if not cs or fuel <= 0:
        out.append((lits, g))
        return fuel
    c = inner[0]
    for val in (True, False):
        l = c if val else Not(c)
        prune.push()
        prune.add(l)
        if sat(prune) != z3.unsat:
            subs = [(c, z3.BoolVal(val))]
            g2 = z3.substitute(g, *subs)
            if val and z3.is_eq(c):
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and isval(y):
                        g2 = z3.substitute(g2, (x, y))
                        break
            fuel = cases(z3.simplify(g2), lits + [l], out, fuel - 1, prune)
        prune.pop()
    return fuel


def pruner(hyps):
    s = z3.Solver()
    s.set("rlimit", 20000)
    s.set("timeout", 5000)
    for h in hyps:
        if not any(isinstance(t.sort(), z3.SeqSortRef) and not (z3.is_const(t)) for t in apps([h], {}, [], None)): s.add(h)
    return s


def rewritten(E, hyps, g):
    """the goal with recursive functions unfolded at compound arguments and variables replaced by what they equal"""
    def unfold(g):
        pairs = []
        for t in apps([g], {}, [], None):
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0: continue
            L = E.logic.get(t.decl().name())
            if L is None or L["body"] is None or not isinstance(t.sort(), (z3.SeqSortRef, z3.DatatypeSortRef)): continue
            if any(a.sort() == z3.IntSort() and z3.is_add(a) for a in t.children()): pairs.append((t, subst_body(E, L, t)))
        return z3.simplify(z3.substitute(g, *pairs)) if pairs else g
    g = unfold(g)
    pairs, seen = [], set()
    for h in hyps:
        if not z3.is_eq(h): continue
        a, b = h.arg(0), h.arg(1)
        if not isinstance(a.sort(), (z3.SeqSortRef, z3.DatatypeSortRef)): continue
        if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED): a, b = b, a
        if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED) or a.get_id() in seen: continue
        if pairs: b = z3.substitute(b, *pairs)
        if any(x.eq(a) for x in apps([b], {}, [], None)): continue
        seen.add(a.get_id())
        pairs = [(x, z3.substitute(y, (a, b))) for x, y in pairs] + [(a, b)]
    if pairs: g = z3.simplify(z3.substitute(g, *pairs))
    return g


def decided(g, prune):
    """case distinctions that the hypotheses decide are replaced by the branch taken"""
    known = {}
    for _ in range(8):
        pairs, seen = [], set()
        for t in apps([g], {}, [], None):
            if t.decl().kind() != z3.Z3_OP_ITE: continue
            c = t.arg(0)
            while z3.is_not(c): c = c.arg(0)
            if c.get_id() in seen: continue
            seen.add(c.get_id())
            if any(x.decl().kind() == z3.Z3_OP_ITE for x in apps([c], {}, [], None)): continue
            if c.get_id() in known: continue
            known[c.get_id()] = c
            for val in (True, False):
                prune.push()
                prune.add(Not(c) if val else c)
                r = sat(prune)
                prune.pop()
                if r == z3.unsat:
                    pairs.append((c, z3.BoolVal(val)))
                    break
        if not pairs: return g
        g = z3.simplify(z3.substitute(g, *pairs))
    return g


def by_cases(E, hyps, g, rlimit, timeout):
    """a goal about sequences, case by case after unfolding"""
    prune = pruner(hyps)
    g = rewritten(E, hyps, decided(g, prune))
    leaves = []
    if cases(decided(g, prune), [], leaves, 150, prune) <= 0: return False
    for lits, leaf in leaves:
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("rlimit", rlimit)
        fs = list(hyps) + lits + [Not(leaf)]
        for f in fs: s.add(f)
        for f in Context(E, 1, 150).add(lits + [Not(leaf)]): s.add(f)
        STATS["queries"] += 1
        if sat(s) != z3.unsat:
            if os.environ.get("CPPVC_LEAF"): print("LEAF", lits, "\n", leaf, "\nHYPS", hyps)
            return False
    return True


def check(E, hyps, goal, timeout=10000, depth=3):
    """returns (verdict, model): proved / refuted / unknown"""
    hyps = [z3.simplify(h) for h in hyps]
    g = z3.simplify(goal)
    if is_true(g) or any(is_false(h) for h in hyps): return "proved", None
    if seq_conditions(g):
        leaves = []
        if cases(g, [], leaves, 150, pruner(hyps)) > 0:
            for lits, leaf in leaves:
                v, m = check1(E, hyps + lits, leaf, timeout, depth)
                if v != "proved": return v, m
            return "proved", None
    return check1(E, hyps, g, timeout, depth)


def check1(E, hyps, goal, timeout=10000, depth=3):
    t0 = time.time()
    g = goal
    if is_true(g) or any(is_false(h) for h in hyps): return "proved", None
    STATS["queries"] += 1
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("rlimit", E.opts.get("rlimit", 20000000))
    ng = Not(g)
    allf = hyps + [ng]
    for f in allf: s.add(f)
    for f in context(E, allf, depth): s.add(f)
    r = sat(s)
    STATS["time"] += time.time() - t0
    if r == z3.unsat: return "proved", None
    if r == z3.sat: return "refuted", s.model()
    why = s.reason_unknown()
    if E.opts.get("cvc5", True):
        t0 = time.time()
        r = cvc5_result(cvc5_start(s.to_smt2(), E.opts.get("cvc5_rlimit", 3000000), E.opts.get("cvc5_tlimit", 120)))
        STATS["time"] += time.time() - t0
        STATS["cvc5"] = STATS.get("cvc5", 0) + 1
        if r == "unsat": return "proved", None
        why += ", cvc5: " + r
    return "unknown:" + why, None


def prove(E, hyps, goal, timeout=10000, depth=3):
    return check(E, hyps, goal, timeout, depth)[0] == "proved"
