"""cppvc driver: a unit file (real sources + contracts) -> obligations -> verdicts."""
import json, os, re, subprocess, sys, time, traceback, hashlib
if os.environ.get("PYTHONHASHSEED") != "0" and __name__ == "__main__":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
from core import *
import engine, solve

ROOT = os.path.dirname(HERE)
BUILD = os.environ.get("CPPVC_BUILD", os.path.join(ROOT, "build"))
REPO = os.environ.get("CPPVC_REPO", "/repo")
FLAGS = ("-std=c++17 -fno-rtti -fno-access-control -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS "
         "-D__STDC_LIMIT_MACROS -w").split() + ["-I/usr/lib/llvm-20/include"] + \
        ["-I%s/%s" % (REPO, d) for d in ("oclint-core/include", "oclint-metrics/include", "oclint-rules/include", "oclint-rules",
                                         "oclint-driver/include")] + ["-I" + HERE, "-I" + ROOT, "-I" + REPO]


def exporter():
    out = os.path.join(BUILD, "exporter")
    src = os.path.join(HERE, "exporter.cpp")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        subprocess.run(["bash", os.path.join(HERE, "build_exporter.sh"), out], check=True)
    return out


class ExtractionFailed(Exception): pass


def export(unit, flags=()):
    with open(unit) as f: extra = re.findall(r"^// cppvc: user (\S+)$", f.read(2000), re.M)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s.%d.json" % (os.path.basename(unit), os.getpid()))
    r = subprocess.run([exporter(), out, ":".join([REPO, ROOT] + extra), os.path.abspath(unit), "--"] + FLAGS + list(flags), capture_output=True, text=True)
    try:
        if r.returncode != 0 or not os.path.exists(out):
            raise ExtractionFailed("the unit does not compile against the current tree:\n" + r.stderr[-3000:])
        with open(out) as f: return json.load(f)
    finally:
        if os.path.exists(out): os.unlink(out)


def init_engine(data, opts):
    E = engine.Engine(data, opts)
    E.heapinit, E.heapsort, E.ginit, E.exact = {}, {}, {}, {}
    E.goal_instances, E.extra_args, E.loop_invs, E.n_inv_obl, E.keep = [], [], [], 0, []
    E.houdini_off, E.need_eq, E.mapiters, E.seqelem = False, set(), {}, {}
    E.builtin = {"requires_": b_requires, "become": b_become, "unspecified": b_unspecified, "nth_new": b_nth_new, "keys": b_keys, "owner": b_owner}
    E.required, E.unspecified, E.allocidx, E.vartype = [], set(), {}, {}
    E.spec_depth, E.invs, E.lemmas, E.assumed = 0, {}, [], {}
    return E


def b_requires(E, f, args, st):
    c = E.to_bool(E.ev(args[0], st))
    if E.in_real: E.oblige(st, c, "call-precondition")
    elif len(E.frames) <= 1: E.required.append(Implies(And(*st.pc), c))
    st.assume(c)
    return None


def b_keys(E, f, args, st):
    """the elements of a set, or the keys of a map, in the order of a traversal"""
    return E.keys_of(E.term(E.models.aval(E, args[0], st)))


def b_owner(E, f, args, st):
    """the object whose accessor gave the iterator"""
    v = E.rv(E.ev(args[0], st), st)
    c = getattr(v, "c", None)
    if not isinstance(c, z3.ExprRef) or c.num_args() != 1 or not c.decl().name().startswith("seq_"): E.unsup("owner of an iterator that is not an accessor's")
    return c.arg(0)


def b_become(E, f, args, st):
    E.write(st, E.resolve(st, E.lv(args[0], st)), E.rv(E.ev(args[1], st), st))
    return None


def b_unspecified(E, f, args, st):
    """the contract says nothing about this field of any object"""
    lv = E.resolve(st, E.lv(args[0], st))
    if lv.root[0] == "v" and isinstance(lv.root[1], tuple) and lv.root[1][0] == "g":
        st.env[lv.root[1]] = E.fresh("U", E.term(E.read(st, lv)).sort())
        if E.wlog is not None: E.wlog.add(("v", lv.root[1]))
        if not E.in_real: E.unspecified.add(lv.root[1])
        return None
    if lv.root[0] != "h": E.unsup("unspecified place that is no field")
    E.heap0(lv.root[1])
    st.heap[lv.root[1]] = E.fresh("U_" + lv.root[1], E.heap0(lv.root[1]).sort())
    if E.wlog is not None: E.wlog.add(("h", lv.root[1]))
    if not E.in_real: E.unspecified.add(lv.root[1])
    return None


def b_nth_new(E, f, args, st):
    return E.nth_new(E.types[E.canon_cls(E.types[E.strip(f["rt"])]["to"])]["s"], E.rv(E.ev(args[0], st), st))


I0_ = z3.IntVal(0)


class Result:
    def __init__(self, name, verdict, fn, loc=None, info=""):
        self.name, self.verdict, self.fn, self.loc, self.info = name, verdict, fn, loc, info


class Unit:
    def __init__(self, path, flags=(), opts=None):
        self.path = path
        self.data = export(path, flags)
        o = {}
        with open(path) as f: head = f.read(2000)
        for m in re.finditer(r"^// cppvc: (\w+)=(\d+)$", head, re.M): o[m.group(1)] = int(m.group(2))
        o.update(opts or {})
        self.E = E = init_engine(self.data, o)
        self.contract_of = {}      # contract fid -> target fid
        self.missing = []
        for i, f in enumerate(E.funcs):
            for a in f.get("an", []):
                if a == "logic": E.register_logic(i)
                if a == "lemma": E.lemmas.append(i)
        for i, f in enumerate(E.funcs):
            for a in f.get("an", []):
                if a.startswith("contract:"):
                    t = self.find_target(a[9:], i)
                    if t is None: self.missing.append(a[9:]); continue
                    tf = E.funcs[t]
                    f["selfparam"] = bool(tf.get("cls")) and not tf.get("static")
                    self.contract_of[i] = t
                    E.contracts[t] = i
                if a.startswith("assume:"):
                    ts = self.assumed_targets(a[7:], i)
                    for t in ts:
                        f["selfparam"] = bool(E.funcs[t].get("cls")) and not E.funcs[t].get("static")
                        E.contracts[t] = i
                    if ts: E.assumed[i] = a[7:]
                if a.startswith("invariant:"): E.invs.setdefault(a[10:], []).append(i)
        E.finalize_logic()

    def assumed_targets(self, name, cfid):
        """functions an assumed contract stands for: same name and number of parameters, same types where overloaded"""
        E = self.E
        c = E.funcs[cfid]
        out = []
        if not hasattr(self, "plain"):
            self.plain = {}
            for q, js in E.byqn.items():
                while "<" in q and "operator" not in q and re.search(r"<[^<>]*>", q): q = re.sub(r"<[^<>]*>", "", q)
                self.plain.setdefault(q, []).extend(js)
        for j in self.plain.get(name, []):
            f = E.funcs[j]
            off = 1 if f.get("cls") and not f.get("static") else 0
            if len(c["pt"]) == len(f["pt"]) + off or off <= len(c["pt"]) < len(f["pt"]) + off and name.startswith("clang::RecursiveASTVisitor::"):
                same = all(self.same_type(a, b) for a, b in zip(c["pt"][off:], f["pt"]))
                if off and "<" in f["qn"]:
                    own = E.types[E.strip(c["pt"][0])]["s"].replace("class ", "")
                    if not re.search(r"(^|[^\w])" + re.escape(own) + r"($|[^\w])", f["qn"].replace("class ", "")): continue
                out.append((same, j))
        if any(x for x, _ in out): return [j for x, j in out if x]
        return [j for _, j in out] if len(out) == 1 else []

    def find_target(self, name, cfid):
        """name or name/selector; overloads are told apart by the types of the parameters"""
        E = self.E
        c = E.funcs[cfid]
        best, exact = None, []
        for j in E.byqn.get(name, []):
            f = E.funcs[j]
            if "body" not in f and not f.get("virtual"): continue
            n = len(f["pt"])
            if len(c["pt"]) == n + (1 if f.get("cls") and not f.get("static") else 0):
                off = len(c["pt"]) - n
                if all(self.same_type(a, b) for a, b in zip(c["pt"][off:], f["pt"])):
                    exact.append(j)
                best = best if best is not None else j
        for j in exact:   # instances of a template may differ in what they return
            if self.same_type(c["rt"], E.funcs[j]["rt"]): return j
        return exact[0] if exact else best

    def same_type(self, a, b):
        E = self.E
        return E.types[E.strip(a)]["s"].replace("const ", "") == E.types[E.strip(b)]["s"].replace("const ", "")

    def label(self, t):
        """name of a function under contract, with its parameter types when it is overloaded"""
        E = self.E
        qn = E.funcs[t]["qn"]
        if sum(1 for x in self.contract_of.values() if E.funcs[x]["qn"] == qn) > 1:
            qn += "(" + ", ".join(E.types[p]["s"].replace("const ", "").replace("clang::", "").replace("class ", "") for p in E.funcs[t]["pt"]) + ")"
        return qn

    # ------------------------------------------------------------------ one contract
    def verify(self, cfid, rlimit=None):
        E = self.E
        tfid = self.contract_of[cfid]
        name = self.label(tfid)
        t0 = time.time()
        out = []
        try:
            self.setup_run(tfid)
            obls = self.obligations(cfid, tfid)
        except Unsupported as e:
            out.append(Result("extraction", "unsupported", name, None, str(e)))
            return out
        except RecursionError:
            out.append(Result("extraction", "unsupported", name, None, "recursion in the extraction"))
            return out
        except Exception as e:
            out.append(Result("extraction", "unsupported", name, None, "internal: " + traceback.format_exc()[-6000:]))
            return out
        for (n, hyps, goal, loc) in obls:
            v, model = solve.check(E, hyps, goal, timeout=E.opts.get("timeout", 180000), depth=E.opts.get("depth", 3))
            info = ""
            if v == "refuted":
                info = self.show_model(model)
            out.append(Result(n, v, name, loc, info))
        return out

    def show_model(self, m):
        s = []
        for d in m.decls():
            if d.arity() == 0:
                try: s.append("%s = %s" % (d.name(), str(m[d])[:200]))
                except Exception: pass
        return "; ".join(sorted(s))[:3000]

    def setup_run(self, tfid):
        E = self.E
        E.verifying = tfid
        E.frames, E.throws, E.obls = [], [[]], []
        E.trivial = 0
        E.goal_instances = []
        E.loop_invs = []
        E.in_real = False

    def param_value(self, st, p, k):
        """(value for a call, place to compare afterwards or None)"""
        E = self.E
        t = E.types[p["t"]]
        nm = "p_" + (p["n"] or str(k))
        if t["k"] in ("lref", "rref"):
            i = E.strip(p["t"])
            if E.by_identity(i):
                c = E.fresh(nm, z3.IntSort())
                st.assume(c >= 1)
                kr = self.kind_fact(i, c)
                if kr is not None: st.assume(kr)
                if self.leaf(i):
                    E.exact[c.get_id()] = (c, E.canon_cls(i))
                    E.keep.append(c)
                return LVal(("o", c, E.canon_cls(i))), None
            lv = E.temp(st, E.sym(nm, i))
            return lv, (lv if not E.types[t["to"]].get("c") else None)
        i = E.strip(p["t"])
        if E.by_identity(i): E.unsup("object passed by value")
        return E.sym(nm, i), None

    def leaf(self, i):
        """a class that nothing derives from"""
        E = self.E
        t = E.types[i]
        return "r" in t and bool(E.recs[t["r"]].get("src")) and not self.derived(i)

    def derived(self, i):
        """a class that is only there to derive from, or that another one of the unit derives from"""
        E = self.E
        if not hasattr(self, "bases"): self.bases = {E.canon_cls(b) for r in E.recs for b in r["b"]}
        t = E.types[i]
        return "r" in t and bool(E.recs[t["r"]].get("abs")) or E.canon_cls(i) in self.bases

    def kind_fact(self, i, c):
        E = self.E
        n = E.types[i].get("n", "")
        if n.startswith("clang::") and n[7:] in E.kindr:
            lo, hi = E.kindr[n[7:]]
            return z3.And(E.kindf(c) >= lo, E.kindf(c) <= hi)
        return None

    def obligations(self, cfid, tfid):
        E = self.E
        tf, cf = E.funcs[tfid], E.funcs[cfid]
        st = State()
        this, ctor = None, bool(tf.get("ctor"))
        ref = None
        if tf.get("cls") and not tf.get("static"):
            ref = z3.Const("self", z3.IntSort())
            st.assume(ref >= 1)
            this = LVal(("o", ref, E.canon_cls(tf["clst"])))
            if cf["selfparam"]:
                ct = E.types[E.strip(cf["ps"][0]["t"])]
                if "r" in ct and E.canon_cls(E.strip(cf["ps"][0]["t"])) != this.root[2]:
                    # a contract for an inherited member, stated for the derived class
                    this = LVal(("o", ref, E.canon_cls(E.strip(cf["ps"][0]["t"]))))
            if not self.derived(this.root[2]): E.exact[ref.get_id()] = (ref, this.root[2])
            E.keep.append(ref)
            if ctor:
                for f, ft in E.all_fields(E.types[this.root[2]]["r"]):
                    E.fieldlv(this, f, ft)
        args, outs = [], []
        for k, p in enumerate(tf["ps"]):
            v, o = self.param_value(st, p, k)
            args.append(v)
            if o is not None: outs.append((p["n"], o))
        # two parameters that are the ends of what an accessor of one object ranges over
        for a in cf.get("an", []):
            m = re.match(r"range:(\d+):(\d+):(.*)$", a)
            if m:
                g = E.fresh("owner", z3.IntSort())
                st.assume(g >= 1)
                fs = [x for x in E.funcs if x["qn"] == m.group(3)]
                if not fs: E.unsup("no function " + m.group(3))
                s = E.models.seq_uf(E, fs[0], E.models.base_of(fs[0]["n"].rsplit("_", 1)[0]), g, E.models.elem_of_iter_ret(E, fs[0]["rt"]), st)
                args[int(m.group(1))], args[int(m.group(2))] = Iter(s, z3.IntVal(0)), Iter(s, z3.Length(s))
        clsname = tf.get("cls")
        invs = E.invs.get(clsname, []) if clsname and not tf.get("static") else []
        hyp_inv = []
        if not ctor:
            for i in invs:
                v = E.to_bool(E.rv(E.run_body(i, None, [this], st), st))
                st.assume(v)
        base = st.copy()
        # the contract
        E.in_real = False
        E.throws = [[]]
        E.unspecified, E.required = set(), []
        sc = base.copy()
        cargs = ([this] if cf["selfparam"] else []) + list(args)
        vc = E.run_body(cfid, None, cargs, sc)
        tc = E.throws.pop()
        pre = list(sc.pc)
        required, E.required = E.required, []
        E.throws = [[]]
        # instances of logic functions the contract's answer mentions
        if vc is not None:
            if isinstance(vc, LVal): vc = E.read(sc, vc)
            if not isinstance(vc, (Iter, MapIter, PtrTo)): vc = E.term(vc)
        terms = [x for x in [vc] if isinstance(x, z3.ExprRef)] + list(sc.heap.values()) + [c for c in pre if not any(c.eq(x) for x in base.pc)]
        for _, lv in outs: terms.append(E.term(E.read(sc, lv)))
        for k, v in sc.env.items():
            if isinstance(k, tuple) and k and k[0] == "g" and isinstance(v, (z3.ExprRef, Rec)): terms.append(E.term(v))
        E.goal_instances = self.instances(terms)
        # the real body
        E.in_real = True
        E.obls, E.throws = [], [[]]
        sr = base.copy()
        # preconditions of the contract hold (those without free result)
        for c in required: sr.assume(c)
        vr = E.run_body(tfid, this, list(args), sr)
        tr = E.throws.pop()
        E.throws = [[]]
        if isinstance(vr, LVal): vr = E.read(sr, vr)
        obls = list(E.obls)
        E.in_real = False
        line = tf.get("line")
        # abnormal ends agree
        ctc, ctr = Or(*[s.cond() for s, _, _ in tc]), Or(*[s.cond() for s, _, _ in tr])
        if tc or tr:
            for s_, _, _ in tr: obls.append(("fails-only-when-it-may", list(s_.pc), ctc, line))
            if not sr.dead(): obls.append(("fails-when-it-must", list(sr.pc), Not(ctc), line))
        hyps = list(sc.pc) + [c for c in sr.pc if not any(c.eq(x) for x in sc.pc)]
        if not sc.dead() or not sr.dead():
            if vc is not None and E.types[tf["rt"]]["k"] != "void" and not ctor:
                obls.append(("result", hyps, self.same(vc, vr, sc, sr), line))
            for n, lv in outs:
                obls.append(("argument " + n, hyps, self.same(E.read(sc, lv), E.read(sr, lv), sc, sr), line))
            for key in sorted(set(sc.heap) | set(sr.heap)):
                if self.mutable(key): continue
                a, b = sc.heap.get(key), sr.heap.get(key)
                if a is None: a = E.heap0(key)
                if b is None: b = E.heap0(key)
                if a.eq(b): E.trivial += 1; continue
                r = z3.Const("anyobj", z3.IntSort())
                if key in E.unspecified: continue
                # what the two sides make is compared where it can be reached from older objects
                rng = [] if all(E.term(sc.env.get(k, I0_)).eq(E.term(sr.env.get(k, I0_))) for k in list(sc.env) + list(sr.env) if isinstance(k, tuple) and str(k[1]).startswith("alloc ")) else [r >= 0]
                obls.append(("effect on " + key, hyps + rng, Eq(E.sel(a, r), E.sel(b, r)), line))
            gk = {k for k in list(sc.env) + list(sr.env) if isinstance(k, tuple) and k and k[0] == "g"}
            for k in sorted(gk, key=str):
                a, b = sc.env.get(k, E.ginit.get(k)), sr.env.get(k, E.ginit.get(k))
                if a is None or b is None or str(k[1]).startswith("alloc "): continue
                n = E.vars[k[1]]["qn"] if isinstance(k[1], int) else k[1]
                if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): E.trivial += 1; continue
                if k in E.unspecified: continue
                obls.append(("effect on " + n, hyps, self.same(a, b, sc, sr), line))
                if os.environ.get("CPPVC_GOAL"): print("GOAL", n, hyps, "\n", z3.simplify(a).sexpr(), "\n", z3.simplify(b).sexpr())
            for i in invs:
                v = E.to_bool(E.rv(E.run_body(i, None, [this], sr), sr))
                obls.append(("invariant " + E.funcs[i]["n"], list(sr.pc), v, line))
        if not obls and E.trivial: obls.append(("result", [], TRUE, line))
        # vacuity: the precondition is satisfiable
        s = z3.Solver(); s.set("timeout", 5000)
        for c in pre: s.add(c)
        for c in solve.context(E, pre, 2): s.add(c)
        if s.check() == z3.unsat and not tc: obls.append(("precondition-satisfiable", [], FALSE, line))
        return obls

    def mutable(self, key):
        E = self.E
        if not hasattr(self, "_mut"):
            self._mut = {r["n"] + "." + f["n"] for r in E.recs for f in r["f"] if f.get("mut")}
        return key in self._mut

    def same(self, a, b, sc, sr):
        E = self.E
        if isinstance(a, Iter) and isinstance(b, Iter): return Eq(a.i, b.i)
        if b is None: return FALSE
        if isinstance(a, LVal): a = E.read(sc, a)
        if isinstance(b, LVal): b = E.read(sr, b)
        a, b = E.term(a), E.term(b)
        if a.sort() != b.sort():
            if {a.sort(), b.sort()} == {z3.IntSort(), z3.BoolSort()}: return Eq(E.toint(a), E.toint(b))
            if a.sort() in (z3.IntSort(),) and b.sort() == z3.RealSort(): a = z3.ToReal(a)
        return Eq(a, b)

    def instances(self, terms, levels=2):
        E = self.E
        out, seenk = [], set()
        seen = {}
        front = list(terms)
        for d in range(levels):
            new = solve.apps(front, seen, [], None)
            front = []
            for t in new:
                if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: continue
                L = E.logic.get(t.decl().name())
                if L is None: continue
                n = len(L["formals"])
                key = t.get_id()
                if key in seenk: continue
                seenk.add(key)
                E.keep.append(t)
                out.append((L["fid"], t.children()[:n]))
                if L["body"] is not None: front.append(solve.subst_body(E, L, t))
        return out[:60]


_U = None


def _job(c):
    t = time.time()
    q0 = dict(solve.STATS)
    rs = _U.verify(c)
    E = _U.E
    for r in rs: r.loc = r.loc if isinstance(r.loc, (int, str, type(None))) else str(r.loc)
    return rs, {"solver": solve.STATS["time"] - q0["time"], "cvc5": solve.STATS.get("cvc5", 0) - q0.get("cvc5", 0), "wall": time.time() - t, "queries": solve.STATS["queries"] - q0["queries"], "loops": list(E.loop_invs),
                "inlined": sorted({E.funcs[i]["qn"] for i in E.inlined}), "contracts": sorted({E.funcs[i]["qn"] for i in E.used_contracts}),
                "trusted": sorted(E.trusted), "need_eq": sorted(E.need_eq), "assumptions": sorted(E.assumptions),
                "trivial": E.trivial, "inv": E.n_inv_obl}


def verify_all(u, cids=None, procs=8):
    """verify contracts in parallel; yields (results, info)"""
    global _U
    _U = u
    import multiprocessing as mp
    cids = list(u.contract_of) if cids is None else cids
    if not cids: return []
    with mp.get_context("fork").Pool(min(procs, len(cids)), maxtasksperchild=1) as pool:
        return pool.map(_job, cids, chunksize=1)


def match(qn, pats):
    return any(qn == p or (p.endswith("*") and qn.startswith(p[:-1])) for p in pats)


def report(a):
    """verify the contracts whose targets match, and those they rely on; write a JSON report"""
    t0 = time.time()
    rep = {"unit": a.unit, "status": "ok", "results": [], "functions": [], "missing": []}
    try:
        u = Unit(a.unit)
        E = u.E
        pats = [x for x in a.targets.split(",") if x]
        rep["export_s"] = time.time() - t0
        rep["logic"] = sorted({E.funcs[i]["qn"] for i in E.logic_by_fid})
        rep["missing"] = u.missing
        todo = [c for c, t in u.contract_of.items() if not pats or match(E.funcs[t]["qn"], pats)]
        done = set()
        by_target = {}
        for c, t in u.contract_of.items(): by_target.setdefault(E.funcs[t]["qn"], []).append(c)
        while todo:
            done |= set(todo)
            nxt = []
            for c, (rs, info) in zip(todo, verify_all(u, todo, a.procs)):
                tf = E.funcs[u.contract_of[c]]
                info["fn"], info["line"], info["file"] = u.label(u.contract_of[c]), tf.get("line"), tf.get("file")
                rep["functions"].append(info)
                for r in rs:
                    rep["results"].append({"fn": r.fn, "obligation": r.name, "verdict": r.verdict, "line": r.loc, "info": r.info})
                for q in info["contracts"]: nxt += [x for x in by_target.get(q, []) if x not in done and x not in nxt]
            todo = nxt
    except ExtractionFailed as e:
        rep["status"], rep["error"] = "extraction-failed", str(e)
    except Unsupported as e:
        rep["status"], rep["error"] = "unsupported", str(e)
    except Exception:
        rep["status"], rep["error"] = "internal", traceback.format_exc()
    rep["wall"] = time.time() - t0
    with open(a.json, "w") as f: json.dump(rep, f)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("unit"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--json"); ap.add_argument("--targets", default=""); ap.add_argument("--procs", type=int, default=8)
    a = ap.parse_args()
    t = time.time()
    if a.json: return report(a)
    u = Unit(a.unit)
    print("export %.1fs; contracts %d missing %s logic %d" % (time.time() - t, len(u.contract_of), u.missing, len(u.E.logic_by_fid)))
    bad = 0
    if not a.only and not a.v:
        for rs, info in verify_all(u):
            if any(r.verdict != "proved" for r in rs) or info["wall"] > 5:
                print("%-60s %s %s" % (rs[0].fn, [(r.name, r.verdict, r.info[-2500:]) for r in rs if r.verdict != "proved"], info["wall"]))
        print("total %.1fs" % (time.time() - t))
        return
    for c in u.contract_of:
        if a.only and a.only not in u.E.funcs[c]["n"]: continue
        t = time.time()
        rs = u.verify(c)
        print("%-60s %s  %.1fs" % (u.E.funcs[u.contract_of[c]]["qn"], " ".join("%s:%s" % (r.name, r.verdict) for r in rs), time.time() - t))
        for r in rs:
            if r.verdict != "proved":
                bad += 1
                print("    ", r.info[:1500])
        if a.v: print("   loops", u.E.loop_invs)
    print("queries", solve.STATS, "bad", bad)


if __name__ == "__main__": main()
