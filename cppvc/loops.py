"""Loops: havoc, candidate invariants from the contracts' logic functions, Houdini."""
import itertools, os
import z3
from core import *
import solve

DEBUG = os.environ.get("CPPVC_DEBUG", "")


def havoc_val(E, v, hint):
    if isinstance(v, z3.ExprRef): 
        c = E.fresh(hint, v.sort())
        return c
    if isinstance(v, Iter): return Iter(v.c, E.fresh(hint + "_it", z3.IntSort()), v.rev, v.back, v.et)
    if isinstance(v, Rec): return Rec(v.cls, {k: havoc_val(E, x, hint + "_" + str(k).split(".")[-1]) for k, x in v.f.items()})
    if isinstance(v, Poison): return v
    return Poison("loop-carried " + type(v).__name__)


def leaves(E, v, path=()):
    """[(path, term)] of the term leaves of a value"""
    if isinstance(v, z3.ExprRef): return [(path, v)]
    if isinstance(v, Iter): return [(path + ("it",), v.i)]
    if isinstance(v, Rec):
        r = []
        for k, x in v.f.items(): r += leaves(E, x, path + (k,))
        return r
    return []


def leaf_at(E, v, path):
    for p in path:
        if p == "it": v = v.i
        else: v = E.field_get(v, p)
    return v


class Cand:
    def __init__(self, name, f, strong=False):
        self.name, self.f, self.strong = name, f, strong
        self.second = "start++" in name or " = F" in name or "]++F" in name


def val_of(st, key, E):
    k, x = key
    if k == "v": return st.env.get(x)
    return st.heap.get(x, None) if x in st.heap else E.heap0(x)


def bounds(E, cond, head):
    """pairs (varying side, other side) of the comparisons in a loop condition"""
    save = (list(E.obls), E.wlog, [list(t) for t in E.throws], E.accessed, E.houdini_off)
    E.wlog, E.accessed, E.houdini_off = set(), {}, True
    try: c = cond(head.copy())
    except Unsupported: return []
    finally: E.obls, E.wlog, E.throws, E.accessed, E.houdini_off = save
    out = []
    for t in solve.apps([c], {}, [], None):
        if t.num_args() == 2 and t.arg(0).sort() == z3.IntSort() and (z3.is_eq(t) or t.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE)):
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                # a signed value converted to an unsigned type
                if z3.is_app_of(a, z3.Z3_OP_ITE) and a.num_args() == 3: a = a.arg(1)
                out.append((a, b))
    return out


def flag_of(E, cond, head, W):
    """the loop runs while (or until) a boolean variable is set"""
    save = (list(E.obls), E.wlog, [list(t) for t in E.throws], E.accessed, E.houdini_off)
    E.wlog, E.accessed, E.houdini_off = set(), {}, True
    try: c = cond(head.copy())
    except Unsupported: return None
    finally: E.obls, E.wlog, E.throws, E.accessed, E.houdini_off = save
    c = z3.simplify(c)
    neg = z3.is_not(c)
    t = c.arg(0) if neg else c
    for key in W:
        v = val_of(head, key, E)
        if key[0] == "v" and isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort() and v.eq(t):
            return (lambda st: val_of(st, key, E)) if neg else (lambda st: Not(val_of(st, key, E)))
    return None


def pointers(E, st, t):
    """values of the pointer variables of a type, the latest first"""
    want = E.types[E.strip(t)]["s"].replace("const ", "")
    out = []
    for key in reversed(list(st.env)):
        vt = E.vartype.get(key)
        if vt is None or E.types[E.strip(vt)]["s"].replace("const ", "") != want: continue
        v = st.env[key]
        try: v = E.read(st, v.lv) if isinstance(v, RefBind) else v
        except Unsupported: continue
        if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort() and not any(v.eq(o) for o in out): out.append(v)
    return out[:4]


def make_cands(E, st0, head, W, bnds=(), flag=None):
    """candidate invariants as functions of a state"""
    lv = []
    for key in sorted(W, key=str):
        v0, vh = val_of(st0, key, E), val_of(head, key, E)
        if v0 is None or vh is None: continue
        for path, t in leaves(E, vh):
            try: t0 = leaf_at(E, v0, path)
            except Exception: continue
            if not isinstance(t0, z3.ExprRef) or t0.sort() != t.sort(): continue
            get = (lambda key, path: (lambda s: leaf_at(E, val_of(s, key, E), path)))(key, path)
            lv.append((str(key[1]) + str(path), get, t.sort(), t0))
    C = []
    def add(name, f, strong=False): C.append(Cand(name, f, strong))
    variant = set()
    for key in W:
        for path, t in leaves(E, val_of(head, key, E)): variant.add(t.get_id())

    def invariant(t):
        seen = {}
        return not any(x.get_id() in variant for x in solve.apps([t], seen, [], None))
    # cells of the heap: those written through a fixed pointer, and any other one
    obj = z3.Const("anyobj", z3.IntSort())
    for k, h in sorted(W, key=str):
        if k != "h": continue
        now = lambda st, h=h: val_of(st, ("h", h), E)
        start = now(st0)
        refs = [r for r in E.wrefs.get(h, {}).values() if invariant(r)][:4]
        for r in refs:
            c0 = E.sel(start, r)
            lv.append(("%s[%s]" % (h, str(r)[:20]), lambda st, now=now, r=r: E.sel(now(st), r), c0.sort(), c0))
        same = lambda st, now=now, start=start: Eq(E.sel(now(st), obj), E.sel(start, obj))
        add(h + " same elsewhere", lambda st, same=same, refs=refs: Or(*([Eq(obj, r) for r in refs] + [same(st)])))
        add(h + " same in old objects", lambda st, same=same, refs=refs: Or(*([Eq(obj, r) for r in refs] + [z3.IntVal(0) > obj, same(st)])))
    ints = [(n, g, t0) for n, g, s, t0 in lv if s == z3.IntSort()]
    conts = list(E.accessed.values()) if E.accessed else []
    conts = [c for c in conts if invariant(c)]
    uniq = {}
    for c in conts: uniq.setdefault(c.get_id(), c)
    conts = list(uniq.values())[:8]
    used = {fid for fid, _ in E.goal_instances}
    # and what they are defined by
    todo = list(used)
    while todo:
        L = E.logic_by_fid.get(todo.pop())
        if L is None or L["body"] is None: continue
        for t in solve.apps([L["body"]], {}, [], None):
            for fid2 in E.logic_by_fid:
                if fid2 not in used and t.decl().eq(E.logic_decl(fid2)): used.add(fid2); todo.append(fid2)
    for n, g, s, t0 in lv:
        add(n + " unchanged", lambda st, g=g, t0=t0: Eq(g(st), t0))
        if s == z3.BoolSort():
            add(n + " true", lambda st, g=g: g(st))
            add(n + " false", lambda st, g=g: Not(g(st)))
        if s == z3.IntSort():
            add(n + " >= 0", lambda st, g=g: Le(z3.IntVal(0), g(st)))
            add(n + " >= start", lambda st, g=g, t0=t0: Le(t0, g(st)))
            add(n + " <= start", lambda st, g=g, t0=t0: Le(g(st), t0))
            for a, b in bnds:
                if a.eq(g(head)) and invariant(b) and not isval(b):
                    add(n + " <= bound", lambda st, g=g, b=b: Le(g(st), b))
                    add(n + " >= bound", lambda st, g=g, b=b: Le(b, g(st)))
            for c in conts: add(n + " <= len", lambda st, g=g, c=c: Le(g(st), Len(c)))
    for (n1, g1, a), (n2, g2, b) in itertools.combinations(ints, 2):
        add(n1 + "-" + n2, lambda st, g1=g1, g2=g2, a=a, b=b: Eq(g1(st) - g2(st), a - b))
        add(n1 + "+" + n2, lambda st, g1=g1, g2=g2, a=a, b=b: Eq(g1(st) + g2(st), a + b))
    for n, g, s, t0 in lv:
        if isinstance(s, z3.SeqSortRef):
            for n2, g2, b in ints:
                add("len(%s)=%s" % (n, n2), lambda st, g=g, g2=g2: Eq(Len(g(st)), g2(st)))
            add("len(%s) unchanged" % n, lambda st, g=g, t0=t0: Eq(Len(g(st)), Len(t0)), s == z3.StringSort())
            for n2, g2, b in ints:
                add("%s <= len(%s)" % (n2, n), lambda st, g=g, g2=g2: Le(g2(st), Len(g(st))))
    # index expressions
    idx = []
    for n, g, t0 in ints:
        idx.append((n, g, t0))
        idx.append((n + "+1", lambda st, g=g: Add(g(st), z3.IntVal(1)), Add(t0, z3.IntVal(1))))
        for c in conts:
            idx.append(("len-" + n, lambda st, g=g, c=c: Sub(Len(c), g(st)), Sub(Len(c), t0)))
    inst = E.goal_instances
    heapnow = lambda st, L: [st.heap.get(h, E.heap0(h)) for h in L["heap"]]
    for fid, L in E.logic_by_fid.items():
        f = E.funcs[fid]
        if L["body"] is None or fid not in used: continue
        decl = E.logic_decl(fid)
        pools, idxpos, accpos = [], [], []
        idxname = any(p["n"] in ("i", "j", "k", "n", "idx", "pos") and fm.sort() == z3.IntSort() for p, fm in zip(f["ps"], L["formals"]))
        for k, (p, fm) in enumerate(zip(f["ps"], L["formals"])):
            pool, seen = [], set()
            nm = p["n"]
            if fm.sort() == z3.IntSort() and nm in ("i", "j", "k", "n", "idx", "pos"):
                idxpos.append(k)
                pools.append([None])
                continue
            traversed = [c for c in conts if c.sort() == fm.sort()] if idxname and isinstance(fm.sort(), z3.SeqSortRef) and nm != "before" else []
            for (fid2, args) in inst:
                if fid2 != fid or traversed and not any(args[k].eq(c) for c in traversed): continue
                if args[k].get_id() not in seen and invariant(args[k]):
                    seen.add(args[k].get_id()); pool.append(args[k])
            for c in conts + ([] if traversed else E.extra_args):
                if c.sort() == fm.sort() and c.get_id() not in seen and invariant(c):
                    seen.add(c.get_id()); pool.append(c)
            if nm == "before":
                for n, g, so, t0 in lv:
                    if so == fm.sort() and t0.get_id() not in seen: seen.add(t0.get_id()); pool.insert(0, t0)
            if E.types[E.strip(p["t"])]["k"] == "ptr" and fm.sort() == z3.IntSort():
                for x in pointers(E, head, p["t"]):
                    if x.get_id() not in seen and invariant(x): seen.add(x.get_id()); pool.append(x)
            if nm.startswith("acc"):
                accpos.append(k)
                pools.append([None]); continue
            pools.append(pool[:6])
        if not accpos: state_cands(E, st0, W, lv, L, f, decl, heapnow, add)
        if not idxpos and not accpos: chain_cands(E, st0, W, lv, L, f, decl, pools, heapnow, add)
        if len(idxpos) > 1 or any(not p for p in pools): continue
        if not idxpos and not accpos and not L["heap"] and not z3.BoolSort() == L["ret"]: continue
        dr = direction(L, decl, idxpos[0]) if idxpos else 0
        combos = list(itertools.islice(itertools.product(*pools), 24))
        accleaves = [[(n, g, t0) for n, g, s, t0 in lv if s == L["formals"][k].sort()] for k in accpos]
        for combo in combos:
            for ix in (idx if idxpos else [None]):
                def mk(st, combo=combo, ix=ix, at0=False, accs=None, accs0=None, L=L, decl=decl, idxpos=idxpos, accpos=accpos):
                    a = list(combo)
                    if idxpos: a[idxpos[0]] = ix[2] if at0 else ix[1](st)
                    for k, x in zip(accpos, accs or ()): a[k] = x[2] if at0 else x[1](st)
                    return decl(*(a + (heapnow(st0, L) if at0 else heapnow(st, L))))
                nm = decl.name() + "(" + (ix[0] if ix else "") + ")"
                accsets = list(itertools.islice(itertools.product(*accleaves), 12)) if accpos else [None]
                for accs in accsets:
                    if accpos and not accs: continue
                    F = lambda st, mk=mk, accs=accs: mk(st, accs=accs)
                    F0 = lambda mk=mk, accs=accs: mk(st0, at0=True, accs=accs)
                    pre, suf = dr != 1 or accpos, dr != -1 or accpos
                    if (idxpos or accpos) and suf: add(nm + " same", lambda st, F=F, F0=F0: Eq(F(st), F0()))
                    if L["ret"] == z3.BoolSort() and not accpos:
                        add(nm + " true", lambda st, F=F: F(st))
                        add(nm + " false", lambda st, F=F: Not(F(st)))
                    if accpos: continue
                    if ix and isinstance(L["ret"], z3.SeqSortRef) and "len-" not in ix[0]:
                        add("len(%s)=%s" % (nm, ix[0]), lambda st, F=F, ix=ix: Eq(Len(F(st)), ix[1](st)))
                    for n, g, s, t0 in lv:
                        if is_map(s) and is_set(L["ret"]) and E.acc_sort(s, 0) == E.acc_sort(L["ret"], 0):
                            add(n + " keys = " + nm, lambda st, F=F, g=g: And(Eq(E.acc(g(st), 0), E.acc(F(st), 0)), Eq(E.acc(g(st), 2), E.acc(F(st), 1))))
                        if s != L["ret"]: continue
                        if ix and isinstance(s, z3.SeqSortRef) and "+1" not in ix[0] and "len-" not in ix[0]:
                            for c in conts + combo_conts(combo, s):
                                add("%s = %s++drop" % (n, nm), lambda st, F=F, g=g, ix=ix, c=c: Eq(g(st), Cat(F(st), E.drop(c, ix[1](st)))), s == z3.StringSort())
                        add(n + " = " + nm, lambda st, F=F, g=g: Eq(g(st), F(st)), s == z3.StringSort() or is_set(s))
                        if s == z3.IntSort():
                            if pre: add(n + " = start+" + nm, lambda st, F=F, g=g, t0=t0: Eq(g(st), t0 + F(st)))
                            if suf: add(n + "+" + nm + " same", lambda st, F=F, F0=F0, g=g, t0=t0: Eq(g(st) + F(st), t0 + F0()))
                        elif isinstance(s, z3.SeqSortRef):
                            if pre: add(n + " = start++" + nm, lambda st, F=F, g=g, t0=t0: Eq(g(st), Cat(t0, F(st))), s == z3.StringSort())
                            if suf: add(n + "++" + nm + " same", lambda st, F=F, F0=F0, g=g, t0=t0: Eq(Cat(g(st), F(st)), Cat(t0, F0())))
                        elif s == z3.BoolSort():
                            add(n + " = start||" + nm, lambda st, F=F, g=g, t0=t0: Eq(g(st), Or(t0, F(st))))
                            add(n + " = start&&" + nm, lambda st, F=F, g=g, t0=t0: Eq(g(st), And(t0, F(st))))
                            add(n + " = !" + nm, lambda st, F=F, g=g: Eq(g(st), Not(F(st))))
    # a loop that runs until a flag is set: what holds before and after
    if flag is not None:
        seen = set()
        for c in list(C):
            if not c.name.startswith("chain "): continue
            try: hd = c.f(head)
            except Exception: continue
            if hd.get_id() in seen: continue
            seen.add(hd.get_id()); E.keep.append(hd)
            add("flag or " + c.name, lambda st, c=c: Or(flag(st), c.f(st)))
            add("flag only if " + c.name, lambda st, c=c: Or(Not(flag(st)), c.f(st)))
    # copies of a traversed container
    for n, g, s, t0 in lv:
        if not isinstance(s, z3.SeqSortRef): continue
        for c in conts:
            if c.sort() != s: continue
            for nm, ix, ix0 in idx[:8]:
                add(n + " = start++take(%s)" % nm, lambda st, g=g, t0=t0, ix=ix, c=c: Eq(g(st), Cat(t0, E.take(c, ix(st)))))
    # accumulations started within an enclosing loop: a leaf that is relative to another contract value
    return C


def chain_cands(E, st0, W, lv, L, f, decl, pools, heapnow, add):
    """a loop that follows a chain of objects through a pointer variable"""
    name = lambda t: E.types[E.strip(t)]["s"].replace("const ", "").replace("clang::", "").replace(" ", "")
    for k, (p, fm) in enumerate(zip(f["ps"], L["formals"])):
        if fm.sort() != z3.IntSort() or E.types[E.strip(p["t"])]["k"] != "ptr": continue
        for key in sorted(W, key=str):
            if key[0] != "v" or E.vartype.get(key[1]) is None or name(E.vartype[key[1]]) != name(p["t"]): continue
            v0 = val_of(st0, key, E)
            if not isinstance(v0, z3.ExprRef) or v0.sort() != z3.IntSort(): continue
            rest = [[None] if j == k else pl for j, pl in enumerate(pools)]
            for combo in itertools.islice(itertools.product(*rest), 8):
                def F(st, combo=combo, k=k, key=key):
                    v = val_of(st, key, E)
                    a = [v if j == k else x for j, x in enumerate(combo)]
                    return decl(*(a + heapnow(st, L)))
                f0 = F(st0)
                nm = decl.name() + "(" + str(key[1]) + ")"
                add("chain " + nm + " same", lambda st, F=F, f0=f0: Eq(F(st), f0))
                for n, g, s, t0 in lv:
                    if s != L["ret"]: continue
                    if n != str(key[1]): add("chain " + n + " or " + nm, lambda st, F=F, g=g, t0=t0, f0=f0, v0=v0, key=key: Eq(z3.If(Eq(val_of(st, key, E), z3.IntVal(0)), g(st), F(st)), z3.If(Eq(v0, z3.IntVal(0)), t0, f0)))
                    add("chain " + n + " = " + decl.name() + "(start)", lambda st, g=g, f0=f0: Eq(g(st), f0))
                    if isinstance(s, z3.SeqSortRef): add("chain " + n + " = start++" + decl.name() + "(start)", lambda st, g=g, t0=t0, f0=f0: Eq(g(st), Cat(t0, f0)))
                    if s == z3.IntSort(): add("chain " + n + "+" + nm + " same", lambda st, F=F, g=g, t0=t0, f0=f0: Eq(g(st) + F(st), t0 + f0))
                    elif isinstance(s, z3.SeqSortRef): add("chain " + n + "++" + nm + " same", lambda st, F=F, g=g, t0=t0, f0=f0: Eq(Cat(g(st), F(st)), Cat(t0, f0)))
                    elif s == z3.BoolSort(): add("chain " + n + "||" + nm + " same", lambda st, F=F, g=g, t0=t0, f0=f0: Eq(Or(g(st), F(st)), Or(t0, f0)))


def state_cands(E, st0, W, lv, L, f, decl, heapnow, add):
    """a loop whose variables are consumed the way the parameters of a function are"""
    S = z3.StringSort()
    if not any(fm.sort() == S for fm in L["formals"]) or len(L["formals"]) > 3: return
    opts = [[x for x in lv if x[2] == fm.sort()] for fm in L["formals"]]
    for combo in itertools.islice(itertools.product(*opts), 12):
        if len({x[0] for x in combo}) < len(combo): continue
        F = lambda st, combo=combo: decl(*([x[1](st) for x in combo] + heapnow(st, L)))
        f0 = F(st0)
        nm = "%s(%s)" % (decl.name(), ", ".join(x[0] for x in combo))
        add("state " + nm + " same", lambda st, F=F, f0=f0: Eq(F(st), f0))
        for n, g, s, t0 in lv:
            if s != L["ret"] or any(x[0] == n for x in combo): continue
            if isinstance(s, z3.SeqSortRef): add("state " + n + "++" + nm + " same", lambda st, F=F, g=g, t0=t0, f0=f0: Eq(Cat(g(st), F(st)), Cat(t0, f0)))


def direction(L, decl, k):
    """-1: recursion over a prefix (n - 1), +1: over a suffix (i + 1), 0: something else"""
    if "dir" not in L:
        ds = set()
        for t in solve.apps([L["body"]], {}, [], None):
            if t.decl().eq(decl):
                d = z3.simplify(t.arg(k) - L["formals"][k])
                ds.add(d.as_long() if isval(d) else 0)
        L["dir"] = ds.pop() if len(ds) == 1 else 0
    return L["dir"]


def is_map(s): return isinstance(s, z3.DatatypeSortRef) and s.name().startswith("Map_")
def is_set(s): return isinstance(s, z3.DatatypeSortRef) and s.name().startswith("Set_")


def combo_conts(combo, s): return [x for x in combo if isinstance(x, z3.ExprRef) and x.sort() == s]


def unroll(E, st, cond, body, inc, idx, most):
    """a loop that provably ends within a given number of rounds, executed round by round"""
    from engine import Flow
    x = st.copy()
    x.env[idx] = Add(x.env[idx], z3.IntVal(most))
    wlog = E.wlog
    sess = solve_session(E, list(x.pc))
    if not sess(Not(cond(x))): return None
    fl, exits = Flow(), []
    for n in range(most):
        x = st.copy()
        c = cond(x)
        if is_false(c): break
        ex = x.copy(); ex.assume(Not(c))
        if not is_true(c) and not ex.dead(): exits.append(ex)
        x.assume(c)
        if x.dead(): st = None; break
        b = body(x)
        fl.ret += b.ret; exits += b.brk
        st = E.merge_all([b.normal] + b.cont)
        if st is None or st.dead(): st = None; break
        if inc is not None: inc(st)
    if st is not None: exits.append(st)
    fl.normal = E.merge_all(exits)
    return fl


def run(E, st, cond, body, inc, s, idx):
    from engine import Flow
    # concrete unrolling
    fl = Flow()
    start = (st.copy(), list(E.obls), [list(t) for t in E.throws])
    for n in range(130):
        x = st.copy()
        save = list(E.obls)
        c = cond(x)
        if is_false(c):
            fl.normal = E.merge_all([x] + fl.brk); fl.brk = []
            return fl
        if not is_true(c) or n > 120 or s.get("c", 0) is None:
            E.obls = save
            break
        b = body(x)
        fl.ret += b.ret; fl.brk += b.brk
        nx = E.merge_all([b.normal] + b.cont)
        if nx is None or nx.dead():
            fl.normal = E.merge_all(fl.brk); fl.brk = []
            return fl
        if inc is not None: inc(nx)
        st = nx
    if idx is not None and E.opts.get("unroll") and not n:
        r = unroll(E, st, cond, body, inc, idx, E.opts["unroll"])
        if r is not None: return r
    E.nloops += 1
    entry = st

    def execute(head):
        """one symbolic iteration: (cond state & value, end state, body flow)"""
        x = head.copy()
        c = cond(x)
        ex = x.copy(); ex.assume(Not(c))
        bs = x; bs.assume(c)
        if bs.dead(): return ex, None, Flow()
        b = body(bs)
        end = E.merge_all([b.normal] + b.cont)
        if end is not None and not end.dead():
            if inc is not None: inc(end)
        else: end = None
        return ex, end, b

    def dry(head):
        save = (E.obls, E.wlog, E.throws, E.accessed, E.houdini_off, E.lineno)
        E.obls, E.wlog, E.accessed = list(E.obls), set(), {}
        E.throws = [list(t) for t in E.throws]
        E.houdini_off = True
        try:
            execute(head)
            return E.wlog, E.accessed
        finally:
            E.obls, E.wlog, E.throws, E.accessed, E.houdini_off, E.lineno = save

    def havoc(W):
        head = entry.copy()
        for k, x in sorted(W, key=str):
            if k == "v": head.env[x] = havoc_val(E, entry.env[x], "L" + (x[0] if isinstance(x[0], str) else "v") + str(x[1]))
            else:
                h0 = entry.heap.get(x)
                if h0 is None: h0 = E.heap0(x)
                head.heap[x] = E.fresh("LH_" + x, h0.sort())
        return head

    W = set()
    for _ in range(6):
        head = havoc(W)
        w, acc = dry(head)
        for k, x in list(w):
            if k == "v" and x not in entry.env:
                if E.ginit is not None and x in E.ginit: entry.env[x] = E.ginit[x]
        w = {(k, x) for k, x in w if k == "h" or x in entry.env}
        if w <= W: break
        W |= w
    if E.wlog is not None: E.wlog |= W
    if E.accessed is not None:
        E.accessed.update(acc)
    head = havoc(W)
    flag = flag_of(E, cond, head, W)
    if flag is not None and n and not E.houdini_off:
        # the loop starts with the flag known: its first round is like the others
        entry, E.obls, E.throws = start
        W = {(k, x) for k, x in W if k == "h" or x in entry.env}
        fl = Flow()
        head = havoc(W)
    if E.houdini_off:
        ex, end, b = execute(head)
        fl.ret += b.ret
        fl.normal = E.merge_all([ex] + b.brk + fl.brk); fl.brk = []
        return fl
    save_refs, E.wrefs = E.wrefs, {}
    w, acc = dry(head)
    save_acc = E.accessed
    E.accessed = acc
    cands = make_cands(E, entry, head, W, bounds(E, cond, head), flag)
    E.accessed = save_acc
    for k, v in save_refs.items(): E.wrefs.setdefault(k, {}).update(v)
    # entry
    K = []
    pc = list(entry.pc)
    sess = solve_session(E, pc)
    seen = set()
    for c in cands:
        try:
            g = c.f(entry)
            hd = c.f(head)
        except Unsupported: continue
        except z3.Z3Exception: continue
        if hd.get_id() in seen: continue
        seen.add(hd.get_id())
        E.keep.append(hd)
        if is_true(hd): continue
        if sess(g): K.append(c)
    if DEBUG: print("loop line", E.lineno, "cands", len(cands), "entry", len(K), [c.name for c in K])
    for rnd in range(12):
        h = head.copy()
        for c in K: h.assume(c.f(head))
        obl0, thr0, ln0 = list(E.obls), [list(t) for t in E.throws], E.lineno
        ex, end, b = execute(h)
        if end is None: break
        sess = solve_session(E, list(end.pc))
        K2, maybe = [], []
        for c in K:
            r = safe(sess, c, end)
            if r: K2.append(c)
            elif r is None and c.strong: maybe.append((c, solve.cvc5_start(sess.text(c.f(end)), E.opts.get("cvc5_houdini_rlimit", 600000), 60)))
        if maybe:
            ok = {id(c) for c in K2} | {id(c) for c, h in maybe if solve.cvc5_result(h) == "unsat"}
            K2 = [c for c in K if id(c) in ok]
        if DEBUG: print("  round", rnd, "kept", [c.name for c in K2], "dropped", [c.name for c in K if c not in K2])
        if len(K2) == len(K): break
        K = K2
        E.obls, E.throws, E.lineno = obl0, thr0, ln0
    else:
        E.unsup("invariants did not stabilise")
    E.loop_invs.append((E.lineno, [c.name for c in K]))
    E.n_inv_obl += 2 * len(K)
    fl.ret += b.ret
    fl.normal = E.merge_all([ex] + b.brk + fl.brk); fl.brk = []
    return fl


def safe(sess, c, st):
    try: return sess(c.f(st), c.second)
    except (Unsupported, z3.Z3Exception): return False


def solve_session(E, pc):
    base = [z3.simplify(p) for p in pc]
    sol = z3.Solver()
    sol.set("timeout", E.opts.get("houdini_timeout", 60000))
    sol.set("rlimit", E.opts.get("houdini_rlimit", 150000))
    for p in base: sol.add(p)
    ctx = solve.Context(E, 2, 150)
    for f in ctx.add(base): sol.add(f)
    dead = any(is_false(p) for p in base)

    def ask(g, second=False):
        g0 = g
        g = z3.simplify(g)
        if dead or is_true(g): return True
        if is_false(g) and not base: return False
        sol.push()
        ng = Not(g)
        sol.add(ng)
        for f in solve.Context(E, 2, 150, ctx).add([ng]): sol.add(f)
        t0 = __import__("time").time()
        r = solve.sat(sol)
        dt = __import__("time").time() - t0
        if DEBUG.startswith("dump") and DEBUG[5:] in g.sexpr() and r != z3.unsat:
            open("/tmp/q%d.smt2" % solve.STATS["queries"], "w").write("; %s\n" % r + sol.to_smt2())
        if DEBUG and dt > .15: print("     q %.2f %s %s" % (dt, r, str(g)[:150].replace("\n", " ")), sol.statistics().get_key_value("rlimit count") if 0 else "")
        solve.STATS["time"] += dt
        sol.pop()
        solve.STATS["queries"] += 1
        if r == z3.unsat: return True
        if r == z3.unknown and second:
            # second attempts: case by case; only what the goal itself unfolds to
            t0 = __import__("time").time()
            ok = z3.is_eq(g) and (isinstance(g.arg(0).sort(), z3.SeqSortRef) or solve.seq_conditions(g)) and solve.by_cases(E, base, g, E.opts.get("houdini_rlimit", 150000), E.opts.get("houdini_timeout", 60000))
            if not ok:
                s2 = z3.Solver()
                s2.set("timeout", E.opts.get("houdini_timeout", 60000))
                s2.set("rlimit", E.opts.get("houdini_rlimit", 150000))
                for p in base: s2.add(p)
                s2.add(ng)
                for f in solve.Context(E, 1, 150).add([ng]): s2.add(f)
                ok = solve.sat(s2) == z3.unsat
            solve.STATS["time"] += __import__("time").time() - t0
            solve.STATS["queries"] += 1
            if ok: return True
            r = "fails"
            if DEBUG: print("     second attempt", r, str(g)[:int(os.environ.get("CPPVC_WIDTH", 100))].replace("\n", " "))
            return None
        return None if r == z3.unknown else False

    def text(g):
        sol.push()
        ng = Not(z3.simplify(g))
        sol.add(ng)
        for f in solve.Context(E, 2, 150, ctx).add([ng]): sol.add(f)
        t = sol.to_smt2()
        sol.pop()
        return t
    ask.text = text
    return ask
