"""Library contracts: the C++ standard library, LLVM containers and casts, clang accessors.

These are the trusted part of the verifier; each family is listed in the evidence file."""
import re
import z3
from core import *

I0, I1 = z3.IntVal(0), z3.IntVal(1)
IO = z3.IntSort()


def setup(E):
    from engine import STRINGS, SEQS, SETS, MAPS, SMARTPTRS, STREAMS, RANGES
    global G
    G = dict(STRINGS=STRINGS, SEQS=SEQS, SETS=SETS, MAPS=MAPS, SMARTPTRS=SMARTPTRS, STREAMS=STREAMS, RANGES=RANGES)
    E.schemas = {}
    E.trusted = set()


def innermost(e):
    while e["k"] == "Cast" and e["ck"] in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp"): e = e["e"]
    return e


def family(E, ti):
    """library family of a type id"""
    t = E.types[E.strip(ti)]
    if t["k"] == "ptr": return "charptr" if E.is_charptr(E.strip(ti)) else "ptr"
    if t["k"] != "rec": return t["k"]
    n = t["n"]
    if n in G["STRINGS"]: return "string"
    if n in G["SEQS"] or n in G["RANGES"]: return "seq"
    if n == "std::optional": return "opt"
    if n in G["SETS"]: return "set"
    if n in G["MAPS"]: return "map"
    if n in G["SMARTPTRS"]: return "smart"
    if n in G["STREAMS"]: return "stream"
    if n == "std::pair": return "pair"
    if n == "std::function": return "function"
    if n in ("std::back_insert_iterator",): return "inserter"
    if E.is_iter(E.strip(ti)): return "iter"
    if t.get("lambda"): return "lambda"
    if "r" in t: return "user"
    for b in t.get("bn", []):
        if b in G["SEQS"]: return "seq"
    return "opaque"


# ------------------------------------------------------------------ construction
def construct(E, e, st, target, base=False):
    f = E.funcs[e["fn"]]
    ti = E.strip(e["t"])
    fam = family(E, ti)
    args = e["args"]
    if fam == "user":
        t = E.types[ti]
        if f.get("ctor") == "copy" and (f.get("defaulted") or "body" not in f or not f.get("inits") and f["body"]["b"] == []):
            v = E.ev(args[0], st)
            v = E.rv(v, st)
            if target is None: return v
            if base:
                r = E.expand(v)
                for k, x in r.f.items(): E.write(st, E.fieldlv(target, k, None), x)
            else: E.write(st, target, v)
            return None
        tgt = target
        if tgt is None:
            tgt = E.temp(st, E.zero(ti))
        elif not base and tgt.root[0] == "o" and not tgt.path:
            E.write(st, tgt, E.zero(ti))
        if "body" in f:
            E.call_user(e["fn"], tgt, eval_args(E, f, args, st), st)
        else:
            for i, a in enumerate(args): E.ev(a, st)
            if args and f.get("ctor") != "default" and not f.get("defaulted"):
                E.unsup("constructor without body " + f["qn"])
        return E.read(st, tgt) if target is None else None
    v = construct_lib(E, e, f, ti, fam, args, st)
    if target is not None:
        if not base:
            E.write(st, target, v)
        return None
    return v


def aval(E, a, st): return E.rv(E.ev(a, st), st)


def nondefault(args):
    return args


def construct_lib(E, e, f, ti, fam, args, st):
    pts = f["pt"]
    copy = f.get("ctor") == "copy"
    if copy: return aval(E, args[0], st)
    if fam == "lambda" or fam == "function":
        return aval(E, args[0], st) if args else I0
    # allocators and similar trailing library arguments are ignored
    args = [a for a in args if (E.recname(a["t"]) or "") not in ("std::allocator", "std::less", "std::equal_to", "std::hash")]
    if fam == "string":
        if not args: return z3.StringVal("")
        n = E.types[E.strip(ti)]["n"]
        if len(args) == 1:
            v = aval(E, args[0], st)
            if isinstance(v, z3.ExprRef) and z3.is_string(v): return v
            if isinstance(v, z3.ExprRef) and v.sort() == IO:
                if E.types[E.strip(args[0]["t"])]["k"] == "int" and E.types[E.strip(args[0]["t"])]["w"] == 8 and n == "llvm::Twine":
                    return E.tochar(v)
                if n == "llvm::Twine": return dec(E, v)
                if E.types[E.strip(args[0]["t"])]["k"] in ("nullptr",): return z3.StringVal("")
            if isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.DatatypeSortRef): pass
            E.unsup("string from " + E.types[args[0]["t"]]["s"])
        a, b = aval(E, args[0], st), aval(E, args[1], st)
        if isinstance(a, Iter) and isinstance(b, Iter): return sub_iter(E, a, b, st)
        if isinstance(a, z3.ExprRef) and z3.is_string(a) and len(args) == 2:
            b = E.toint(b)
            if E.types[E.strip(args[0]["t"])]["k"] in ("ptr", "arr"): return substr(a, I0, b)
            return substr(a, b, Sub(Len(a), b))
        if isinstance(a, z3.ExprRef) and z3.is_string(a):
            return substr(a, E.toint(b), E.toint(aval(E, args[2], st)))
        if isinstance(a, z3.ExprRef) and a.sort() == IO:
            n, c = a, E.toint(b)
            if isval(n): return Cat(*([z3.StringVal("")] + [E.tochar(c)] * n.as_long()))
            return E.uf("repeat", [IO, IO], z3.StringSort())(n, c)
        E.unsup("string constructor")
    if fam == "opt":
        if not args or E.recname(args[0]["t"]) == "std::nullopt_t": return z3.Empty(E.sort(ti))
        if len(args) == 1:
            v = aval(E, args[0], st)
            if family(E, args[0]["t"]) == "opt":
                if v.sort() == E.sort(ti): return v
                E.unsup("optional of another type")
            v = E.term(v)
            if z3.SeqSort(v.sort()) != E.sort(ti): E.unsup("optional from " + E.types[args[0]["t"]]["s"])
            return z3.Unit(v)
        E.unsup("optional constructor")
    if fam == "seq":
        if not args: return z3.Empty(E.sort(ti))
        if len(args) == 1:
            v = aval(E, args[0], st)
            if isinstance(v, Iter): v = E.cont_val(st, v.c)
            if isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.SeqSortRef): return v
            if isinstance(v, z3.ExprRef) and v.sort() == IO and isval(v):
                z = E.term(E.zero(E.elem_type(ti)))
                return Cat(*([z3.Empty(E.sort(ti))] + [z3.Unit(z)] * v.as_long()))
            if isinstance(v, z3.ExprRef) and v.sort() == IO and family(E, args[0]["t"]) not in ("ptr",) and E.types[E.strip(args[0]["t"])]["k"] == "int":
                # n default values: their contents are left open
                c = E.fresh("filled", E.sort(ti))
                st.assume(Eq(Len(c), v))
                return c
            if isinstance(v, z3.ExprRef) and v.sort() != E.sort(ti) and family(E, args[0]["t"]) in ("ptr",):
                return z3.Unit(v)
            if isinstance(v, z3.ExprRef) and z3.SeqSort(v.sort()) == E.sort(ti): return z3.Unit(v)
            E.unsup("sequence from " + E.types[args[0]["t"]]["s"])
        a, b = aval(E, args[0], st), aval(E, args[1], st)
        if isinstance(a, Iter) and isinstance(b, Iter): return sub_iter(E, a, b, st)
        if isinstance(a, z3.ExprRef) and a.sort() == IO and isval(a):
            return Cat(*([z3.Empty(E.sort(ti))] + [z3.Unit(E.term(b))] * a.as_long()))
        E.unsup("sequence constructor")
    if fam in ("set", "map"):
        z = E.zero(ti)
        if not args: return z
        v = aval(E, args[0], st)
        if isinstance(v, Iter):
            v2 = aval(E, args[1], st)
            v = sub_iter(E, v, v2, st)
        if isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.SeqSortRef):
            ps = [p for p in parts(v)]
            if all(z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) for p in ps):
                for p in ps:
                    x = p.arg(0)
                    if fam == "map": z = map_insert(E, z, E.field_get(x, "first"), E.field_get(x, "second"), keep=True)
                    else: z = set_insert(E, z, x)
                return z
            if fam == "set":
                return E.uf("set_of_" + v.sort().sexpr(), [v.sort()], z.sort())(v)
        E.unsup(fam + " constructor")
    if fam == "pair":
        if not args: return E.zero(ti)
        if len(args) == 1: return aval(E, args[0], st)
        return Rec(("pair",), {"first": aval(E, args[0], st), "second": aval(E, args[1], st)})
    if fam == "smart":
        return E.term(aval(E, args[0], st)) if args else I0
    if fam == "stream":
        n = E.types[ti]["n"]
        if n in ("llvm::raw_string_ostream", "llvm::raw_svector_ostream"):
            return RefBind(E.resolve(st, E.lv(args[0], st)))
        if n == "std::basic_ofstream": E.unsup("file stream")
        if args and E.is_string(args[0]["t"]): return aval(E, args[0], st)
        return z3.StringVal("")
    if fam == "iter":
        if not args: E.unsup("singular iterator")
        v = aval(E, args[0], st)
        if E.types[ti]["n"] == "std::reverse_iterator" and isinstance(v, Iter):
            return Iter(v.c, Sub(E.cont_len(st, v.c), v.i), True)
        return v
    if fam == "ptr": return aval(E, args[0], st)
    # opaque library values
    vals = [aval(E, a, st) for a in args]
    if len(vals) == 1 and isinstance(vals[0], (Closure, FnRef, Iter)): return vals[0]
    s = E.sort(ti)
    if len(vals) == 1 and isinstance(vals[0], z3.ExprRef) and vals[0].sort() == s: return vals[0]
    if not vals: return E.zero_sort(s)
    ts = [E.term(v) for v in vals]
    E.trusted.add("constructor " + f["qn"])
    return E.uf("ctor_" + E.types[ti]["s"], [t.sort() for t in ts], s)(*ts)


def parts(t):
    from core import _parts
    return _parts(t)


def sub_iter(E, a, b, st):
    v = E.cont_val(st, a.c)
    if a.rev:
        return E.uf("reverse_" + v.sort().sexpr(), [v.sort()], v.sort())(v) if isval(a.i) else E.unsup("reverse range")
    if isval(a.i) and a.i.as_long() == 0 and b.i.eq(Len(v)): return v
    return z3.SubSeq(v, a.i, Sub(b.i, a.i))


def substr(s, i, n):
    if isval(i) and i.as_long() == 0 and n.eq(Len(s)): return s
    if z3.is_string_value(s) and isval(i) and isval(n):
        x = strlit(s)
        return StrVal(x[i.as_long():i.as_long() + n.as_long()])
    return z3.SubString(s, i, n)


def rindex(E, s, x):
    """where x occurs last in s, or -1"""
    if z3.is_string_value(s) and z3.is_string_value(x): return z3.IntVal(strlit(s).rfind(strlit(x)))
    def facts(t):
        s, x = t.arg(0), t.arg(1)
        return z3.And(t >= -1, t + Len(x) <= Len(s), (t < 0) == Not(z3.Contains(s, x)),
                      z3.Implies(t >= 0, z3.And(z3.SubString(s, t, Len(x)) == x, Not(z3.Contains(z3.SubString(s, t + 1, Len(s)), x)))))
    E.schemas.setdefault("str_rindex", [facts])
    return E.uf("str_rindex", [s.sort(), x.sort()], IO)(s, x)


def dec(E, v):
    """decimal text of an integer"""
    if isval(v): return StrVal(str(v.as_long()))
    return E.uf("dec", [IO], z3.StringSort())(v)


def set_insert(E, s, x):
    mem, sz = E.acc(s, 0), E.acc(s, 1)
    was = E.sel(mem, x)
    return s.sort().constructor(0)(z3.Store(mem, x, TRUE), Ite(was, sz, Add(sz, I1)))


def set_erase(E, s, x):
    mem, sz = E.acc(s, 0), E.acc(s, 1)
    was = E.sel(mem, x)
    return s.sort().constructor(0)(z3.Store(mem, x, FALSE), Ite(was, Sub(sz, I1), sz))


def map_insert(E, m, k, v, keep=False):
    """store; with keep an existing binding stays"""
    mem, vals, sz = E.acc(m, 0), E.acc(m, 1), E.acc(m, 2)
    was = E.sel(mem, k)
    v = E.term(v)
    nv = Ite(was, E.sel(vals, k), v) if keep else v
    return m.sort().constructor(0)(z3.Store(mem, k, TRUE), z3.Store(vals, k, nv), Ite(was, sz, Add(sz, I1)))


def map_erase(E, m, k):
    mem, vals, sz = E.acc(m, 0), E.acc(m, 1), E.acc(m, 2)
    was = E.sel(mem, k)
    d = E.zero_sort(vals.sort().range())
    return m.sort().constructor(0)(z3.Store(mem, k, FALSE), z3.Store(vals, k, d), Ite(was, Sub(sz, I1), sz))


# ------------------------------------------------------------------ calls
def eval_args(E, f, args, st):
    out = []
    for i, a in enumerate(args):
        pt = f["pt"][i] if i < len(f["pt"]) else None
        if pt is not None and E.types[pt]["k"] in ("lref", "rref"):
            out.append(E.resolve(st, E.lv(a, st)))
        else:
            out.append(aval(E, a, st))
    return out


def call_closure(E, v, args_e, st, vals=None):
    """args as expressions, or already evaluated in vals (values or places)"""
    if isinstance(v, FnRef):
        f = E.funcs[v.fid]
        a = vals if vals is not None else eval_args(E, f, args_e, st)
        if "body" in f or v.fid in E.contracts: return E.call_user(v.fid, None, a, st)
        return lib_call_vals(E, v.fid, [E.rv(x, st) for x in a], st)
    if not isinstance(v, Closure): E.unsup("call of an unknown function value")
    r = E.recs[v.rec]
    cands = [r["op"]] + r.get("ops", [])
    n = len(vals) if vals is not None else len(args_e)
    cands = [c for c in cands if "body" in E.funcs[c] and len(E.funcs[c]["ps"]) == n]
    if not cands: E.unsup("lambda without body")
    fid = cands[0]
    f = E.funcs[fid]
    a = vals if vals is not None else eval_args(E, f, args_e, st)
    # captured variables appear under their own ids in the lambda's frame
    from engine import Frame
    fr_n = Frame.n + 1
    for vid, c in v.caps.items():
        st.env[(fr_n, vid)] = c
    return E.run_body(fid, v.frame, a, st)


def find_method_obj(E, e, st):
    """(place of the object, static type, innermost type)"""
    o = e["o"]
    inner = innermost(o)
    if e["arrow"]:
        p = aval(E, o, st)
        pt = E.types[E.strip(o["t"])]
        pointee = pt.get("to", None)
        if pointee is None: E.unsup("arrow on " + pt["s"])
        lv = E.deref(st, p, pointee)
        it = E.types[E.strip(inner["t"])].get("to", pointee)
        return lv, pointee, it
    lv = E.resolve(st, E.lv(o, st))
    return lv, E.strip(o["t"]), E.strip(inner["t"])


def mcall(E, e, st):
    if "fn" not in e: E.unsup("pointer-to-member call")
    fid = e["fn"]
    f = E.funcs[fid]
    if f.get("static"):
        return dispatch_free(E, fid, f, e["args"], st, e)
    if f.get("dtor"): return None
    # library containers through pointers to user classes never get here
    ot = e["o"]["t"]
    fam = family(E, f["clst"]) if "clst" in f else "opaque"
    o = e["o"]
    if f["user"] or fid in E.contracts:
        lv, sty, ity = find_method_obj(E, e, st)
        return call_method(E, fid, lv, sty, ity, e["args"], st, e.get("qual"), e)
    if f["n"] == "operator=" and fam in ("string", "seq", "set", "map", "opt", "pair") and family(E, e["args"][0]["t"]) == fam:
        v = aval(E, e["args"][0], st)
        lv = E.resolve(st, E.lv(e["o"], st))
        E.write(st, lv, v)
        return lv
    if fam == "string": return string_method(E, f, e, st)
    if fam == "seq": return seq_method(E, f, e, st)
    if fam == "opt": return opt_method(E, f, e, st)
    if fam == "set": return set_method(E, f, e, st)
    if fam == "map": return map_method(E, f, e, st)
    if fam == "smart":
        lv, _, _ = find_method_obj(E, e, st)
        n = f["n"]
        v = E.read(st, lv)
        if n == "get": return v
        if n == "operator bool" or f.get("conv"): return E.to_bool(v)
        if n == "reset":
            E.write(st, lv, aval(E, e["args"][0], st) if e["args"] else I0); return None
        if n == "release":
            E.write(st, lv, I0); return v
        E.unsup("smart pointer method " + n)
    if fam == "stream" or f["cls"] in ("std::basic_ios", "std::ios_base", "std::basic_stringbuf"): return stream_method(E, f, e, st)
    if fam == "iter":
        lv, _, _ = find_method_obj(E, e, st)
        v = E.read(st, lv)
        if f["n"] == "base" and isinstance(v, Iter) and v.rev:
            return Iter(v.c, Sub(E.cont_len(st, v.c), v.i))
    return uf_method(E, fid, f, e, st)


def visitor_user_method(E, f): return None


def call_method(E, fid, lv, sty, ity, args, st, qual, e):
    f = E.funcs[fid]
    target = fid
    exact = False
    if f.get("virtual") and not qual:
        cls = None
        if lv.root[0] == "o" and not lv.path:
            k = lv.root[1].get_id()
            if k in E.exact and E.exact[k][0].eq(lv.root[1]): cls = E.exact[k][1]
            elif E.frames and E.frames[-1].this is not None and E.frames[-1].this.same(lv) and E.frames[-1].fn is not None and False: pass
        elif lv.root[0] == "v":
            cls = ity if E.types[ity]["k"] == "rec" else None
        if cls is not None:
            target = E.exact_override(fid, cls); exact = True
        tf = E.funcs[target]
        if not exact or tf.get("pure") or "body" not in tf and target not in E.contracts:
            # a contract on the declaration the call names, or on one it overrides
            for c in chain(E, fid):
                if c in E.contracts: return E.call_user(c, lv, eval_args(E, f, args, st), st)
            return abstract_call(E, target, lv, args, st, e)
    return E.call_user(target, lv, eval_args(E, E.funcs[target], args, st), st) if ("body" in E.funcs[target] or target in E.contracts) \
        else undefined_method(E, target, lv, args, st, e)


def chain(E, fid):
    out = [fid]
    for o in E.funcs[fid].get("ov", []): out += chain(E, o)
    return out


def undefined_method(E, fid, lv, args, st, e):
    f = E.funcs[fid]
    if f.get("defaulted") and f["n"] == "operator=":
        v = aval(E, args[0], st)
        E.write(st, lv, v)
        return lv
    return abstract_call(E, fid, lv, args, st, e)


def abstract_call(E, fid, lv, args, st, e):
    """dynamically dispatched or undefined const method: a pure function of object and arguments"""
    root = E.root_method(fid)
    f = E.funcs[fid]
    if not f.get("const") and E.types[f["rt"]]["k"] == "void":
        E.unsup("call of unknown body " + f["qn"])
    if lv.root[0] == "o" and not lv.path: recv = lv.root[1]
    else: recv = E.term(E.read(st, lv))
    ts, outs = [recv], []
    for k, a in enumerate(args):
        t = arg_term(E, a, st)
        pt = E.types[f["pt"][k]] if k < len(f["pt"]) else {"k": ""}
        if pt["k"] == "lref" and not E.types[pt["to"]].get("c") and E.is_glvalue(a) and not E.by_identity(a["t"]):
            # the answer is also written to this variable
            t = unset(E, t, a["t"])
            outs.append((E.resolve(st, E.lv(a, st)), pt["to"], k))
        ts.append(t)
    E.trusted.add("pure: " + E.funcs[root]["qn"])
    r = uf_result(E, E.funcs[root]["qn"], ts, f["rt"], st)
    for lv, t, k in outs: E.write(st, lv, uf_result(E, E.funcs[root]["qn"] + "_out%d" % k, ts, t, st))
    return r


def unset(E, t, ty):
    """a variable that is only written to: nothing can depend on what it held before"""
    return E.term(E.zero(E.strip(ty))) if z3.is_const(t) and str(t).startswith("uninit!") else t


def arg_term(E, a, st):
    """term of an argument of an uninterpreted function"""
    t = E.types[E.strip(a["t"])]
    if E.is_glvalue(a) and E.by_identity(a["t"]):
        lv = E.resolve(st, E.lv(a, st))
        if lv.root[0] == "o" and not lv.path: return lv.root[1]
    v = aval(E, a, st)
    if isinstance(v, Iter): return E.term(v.i)
    if isinstance(v, PtrTo) and t["k"] == "ptr" and E.types[t["to"]].get("c") and v.lv.root[0] != "o": return E.term(E.read(st, v.lv))
    return E.term(v)


def uf_result(E, name, ts, rt, st):
    t = E.types[rt]
    if t["k"] == "void": return None
    if t["k"] in ("lref", "rref"):
        to = t["to"]
        if E.by_identity(to):
            r = E.uf(name, [x.sort() for x in ts], IO, ("ref", to))(*ts)
            E.ufret.pop(r.decl().name(), None)
            return LVal(("o", r, E.canon_cls(to)))
        r = E.uf(name, [x.sort() for x in ts], E.sort(to), to)(*ts)
        return r
    r = E.uf(name, [x.sort() for x in ts], E.sort(rt), rt)(*ts)
    return r


def opcall(E, e, st):
    args = e["args"]
    op = e["op"]
    f = E.funcs[e["fn"]] if "fn" in e else None
    if f is None: E.unsup("operator without callee")
    a0 = args[0]
    fam0 = family(E, a0["t"])
    # calls of function objects
    if op == "()":
        if fam0 in ("lambda", "function"):
            v = aval(E, a0, st)
            return call_closure(E, v, args[1:], st)
    if f["user"] and (f.get("user") and ("body" in f or e["fn"] in E.contracts or not f.get("defaulted"))):
        if e["mem"]:
            lv = E.resolve(st, E.lv(a0, st))
            if "body" not in f and e["fn"] not in E.contracts:
                return undefined_method(E, e["fn"], lv, args[1:], st, e)
            return call_method(E, e["fn"], lv, E.strip(a0["t"]), E.strip(innermost(a0)["t"]), args[1:], st, True, e)
        return dispatch_free(E, e["fn"], f, args, st, e)
    if op == "=" and e["mem"]:
        if fam0 == "inserter": return E.lv(a0, st)
        v = aval(E, args[1], st)
        lv = E.resolve(st, E.lv(a0, st))
        old = E.rv(lv, st) if False else None
        if fam0 == "string" and isinstance(v, z3.ExprRef) and v.sort() == IO: v = E.tochar(v)
        if fam0 == "smart": v = E.term(v)
        if fam0 == "opt":
            if E.recname(args[1]["t"]) == "std::nullopt_t": v = z3.Empty(E.sort(a0["t"]))
            elif family(E, args[1]["t"]) != "opt": v = z3.Unit(E.term(v))
        if fam0 == "inserter_deref": pass
        E.write(st, lv, v)
        return lv
    if fam0 == "stream" and op == "<<": return stream_out(E, e, st)
    if op == "<<" and E.recname(a0["t"]) in ("clang::DiagnosticBuilder", "clang::StreamingDiagnostic"):
        E.unsup("diagnostic building")
    if op in ("==", "!="):
        a, b = aval(E, args[0], st), aval(E, args[1], st)
        check_user_eq(E, args[0]["t"])
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() != b.sort() and family(E, a0["t"]) == "opaque" and a.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            r = E.uf("equal_%s_%s" % (a.sort(), b.sort()), [a.sort(), b.sort()], z3.BoolSort())(a, b)
        else: r = E.equal_prim(a, b, st)
        return r if op == "==" else Not(r)
    if fam0 == "string" or (len(args) > 1 and family(E, args[1]["t"]) == "string" and op == "+"):
        if op == "+":
            a, b = aval(E, args[0], st), aval(E, args[1], st)
            return Cat(strof(E, a), strof(E, b))
        if op == "+=":
            b = strof(E, aval(E, args[1], st))
            lv = E.resolve(st, E.lv(a0, st))
            E.write(st, lv, Cat(E.term(E.read(st, lv)), b))
            return lv
        if op == "[]":
            lv = E.resolve(st, E.lv(a0, st))
            return lv.sub(("i", E.toint(aval(E, args[1], st))))
        if op in ("<", ">", "<=", ">="):
            return E.binop(op, aval(E, args[0], st), aval(E, args[1], st), e["t"], st)
    if fam0 == "opt" and op in ("*", "->"):
        r = opt_value(E, E.term(aval(E, a0, st)))
        E.add_typefact(r, E.targ(E.types[E.strip(a0["t"])], 0))
        return r
    if fam0 == "seq" and op == "[]":
        lv = E.resolve(st, E.lv(a0, st))
        i = E.toint(aval(E, args[1], st))
        bounds(E, st, lv, i)
        r = lv.sub(("i", i))
        note_elem(E, st, r, a0["t"])
        return r
    if fam0 == "map" and op == "[]":
        lv = E.resolve(st, E.lv(a0, st))
        k = E.term(aval(E, args[1], st))
        m = E.term(E.read(st, lv))
        mem = E.acc(m, 0)
        if not is_true(E.sel(mem, k)):
            vt = E.types[E.strip(a0["t"])]
            zv = E.term(E.zero(E.targ(vt, 1))) if vt["n"] != "llvm::StringMap" else E.term(E.zero(E.targ(vt, 0)))
            E.write(st, lv, map_insert(E, m, k, zv, keep=True))
        return lv.sub(("m", k))
    if fam0 == "smart":
        if op == "->": return aval(E, a0, st)
        if op == "*":
            return E.deref(st, aval(E, a0, st), E.targ(E.types[E.strip(a0["t"])], 0))
    if fam0 in ("iter", "inserter", "ptr"):
        if fam0 == "inserter":
            return E.lv(a0, st)
        lv = None
        v = aval(E, a0, st)
        if isinstance(v, (Iter, MapIter)):
            if op == "*":
                if isinstance(v, MapIter): return map_iter_pair(E, st, v)
                r = E.iter_lv(st, v)
                note_elem_t(E, st, r, e["t"])
                return r
            if op == "->":
                if isinstance(v, MapIter): return PtrTo(map_iter_pair(E, st, v))
                r = E.iter_lv(st, v)
                x = E.read(st, r)
                # an iterator over pointers whose operator-> yields the pointer itself
                et = E.types[e["t"]]
                return PtrTo(r) if not (isinstance(x, z3.ExprRef) and x.sort() == IO and et["k"] == "ptr" and E.types[et["to"]]["k"] == "rec") else x
            if op in ("++", "--"):
                lv = E.resolve(st, E.lv(a0, st))
                old = E.read(st, lv)
                new = E.incr(old, 1 if op == "++" else -1, st)
                E.write(st, lv, new)
                return old if len(args) > 1 else lv
            if op in ("+", "-", "<", ">", "<=", ">="):
                return E.binop(op, v, aval(E, args[1], st), e["t"], st)
            if op in ("+=", "-="):
                lv = E.resolve(st, E.lv(a0, st))
                E.write(st, lv, E.binop(op[0], E.read(st, lv), aval(E, args[1], st), e["t"], st))
                return lv
            if op == "[]": return E.iter_lv(st, Iter(v.c, Add(v.i, E.toint(aval(E, args[1], st))), v.rev))
    if op == "-" and len(args) == 2:
        a, b = aval(E, args[0], st), aval(E, args[1], st)
        if isinstance(a, Iter): return E.binop("-", a, b, e["t"], st)
    if op == "|" or op == "&":
        a, b = aval(E, args[0], st), aval(E, args[1], st)
        return E.binop(op, a, b, e["t"], st)
    # opaque library values: operators are pure functions
    ts = [arg_term(E, a, st) for a in args]
    E.trusted.add("pure: " + f["qn"])
    return uf_result(E, f["qn"].replace("operator", "op_") + opname(op), ts, f["rt"], st)


def opname(op): return "".join("%02x" % ord(c) for c in op)


def check_user_eq(E, ti):
    """library equality over user elements relies on their operator== being structural"""
    t = E.types[E.strip(ti)]
    et = E.elem_type(E.strip(ti)) if t["k"] == "rec" else None
    if et is not None and not isinstance(et, tuple): need_structural(E, et)


def need_structural(E, et):
    if E.user_rec(et) is None: return
    name = E.recs[E.user_rec(et)]["n"]
    E.need_eq.add(name)


def strof(E, v):
    if isinstance(v, z3.ExprRef):
        if z3.is_string(v): return v
        if v.sort() == IO: return E.tochar(v)
    E.unsup("string operand")


def bounds(E, st, lv, i):
    if not E.in_real: return
    v = E.read(st, lv)
    if isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.SeqSortRef):
        E.oblige(st, And(Le(I0, i), Lt(i, Len(v))), "index-in-bounds")


def note_elem(E, st, lv, ct):
    et = E.elem_type(E.strip(ct))
    if et is not None and not isinstance(et, tuple): note_elem_t(E, st, lv, et)


def note_elem_t(E, st, lv, et):
    try: v = E.read(st, lv)
    except Unsupported: return
    if isinstance(v, z3.ExprRef): E.add_typefact(v, et)


def map_iter_pair(E, st, v):
    m = E.cont_val(st, v.c)
    if m.sort().name().startswith("Map"):
        # a place whose 'second' is the map's value
        lv = E.temp(st, Rec(("pair",), {"first": v.key, "second": E.sel(E.acc(m, 1), v.key)}))
        E.mapiters[lv.root[1]] = v
        return lv
    return E.temp(st, v.key)


# ---- strings
def string_method(E, f, e, st):
    n = f["n"]
    lv, sty, _ = find_method_obj(E, e, st)
    A = e["args"]
    vals = eval_method_args(E, n, A, st)
    s = E.term(E.read(st, lv))
    if s.sort() == IO: E.unsup("string object")
    def arg(i): return vals[i]
    def iarg(i): return E.toint(arg(i))
    if n in ("size", "length"): return Len(s)
    if n == "empty": return Eq(Len(s), I0)
    if n in ("c_str", "str", "data", "operator basic_string", "toStringRef", "toVector") or f.get("conv"):
        if n == "str" and A: E.unsup("Twine to vector")
        return s
    if n in ("at", "operator[]"): return lv.sub(("i", iarg(0)))
    if n == "front": return lv.sub(("i", I0))
    if n == "back": return lv.sub(("i", Sub(Len(s), I1)))
    if n in ("append", "push_back", "operator+="):
        if n == "append" and len(A) == 2:
            a, b = arg(0), arg(1)
            if isinstance(a, Iter): x = sub_iter(E, a, b, st)
            elif isinstance(a, z3.ExprRef) and z3.is_string(a): x = substr(a, I0, E.toint(b))
            else:
                k, c = E.toint(a), E.toint(b)
                x = Cat(*([z3.StringVal("")] + [E.tochar(c)] * k.as_long())) if isval(k) else E.uf("repeat", [IO, IO], z3.StringSort())(k, c)
        elif n == "append" and len(A) == 3: x = substr(arg(0), iarg(1), iarg(2))
        else: x = strof(E, arg(0))
        E.write(st, lv, Cat(s, x))
        return lv
    if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        x = strof(E, arg(0))
        npos = z3.IntVal((1 << 64) - 1)
        if n == "find" or (n == "find_first_of" and z3.is_string_value(x) and len(strlit(x)) == 1):
            p = iarg(1) if len(A) > 1 else I0
            r = z3.IndexOf(s, x, p)
            return z3.If(r < 0, npos, r)
        if (n == "rfind" or n == "find_last_of" and z3.is_string_value(x) and len(strlit(x)) == 1) and (len(A) == 1 or isval(iarg(1)) and iarg(1).as_long() == (1 << 64) - 1):
            r = rindex(E, s, x)
            return z3.If(r < 0, npos, r)
        p = [iarg(1)] if len(A) > 1 else []
        r = E.uf("str_" + n, [s.sort(), x.sort()] + [q.sort() for q in p], IO)(s, x, *p)
        return r
    if n == "split" and len(A) == 1:
        x = strof(E, arg(0))
        i = z3.IndexOf(s, x, I0)
        return Rec(("pair",), {"first": z3.If(i < 0, s, substr(s, I0, i)), "second": z3.If(i < 0, z3.StringVal(""), substr(s, Add(i, Len(x)), Sub(Len(s), Add(i, Len(x)))))})
    if n in ("substr", "slice", "drop_front", "drop_back", "take_front", "take_back"):
        L = Len(s)
        if n == "substr":
            i = iarg(0) if A else I0
            if len(A) < 2 or (isval(iarg(1)) and iarg(1).as_long() == (1 << 64) - 1): return substr(s, i, Sub(L, i))
            return substr(s, i, iarg(1))
        k = iarg(0) if A else I1
        if n == "drop_front": return substr(s, k, Sub(L, k))
        if n == "drop_back": return substr(s, I0, Sub(L, k))
        if n == "take_front": return substr(s, I0, k)
    if n in ("startswith", "starts_with"): return z3.PrefixOf(strof(E, arg(0)), s)
    if n in ("endswith", "ends_with"): return z3.SuffixOf(strof(E, arg(0)), s)
    if n == "contains": return z3.Contains(s, strof(E, arg(0)))
    if n in ("equals",): return Eq(s, strof(E, arg(0)))
    if n == "compare" and len(A) == 1:
        x = strof(E, arg(0))
        return Ite(Eq(s, x), I0, E.uf("str_cmp", [s.sort()] * 2, IO)(s, x))
    if n == "compare" and len(A) == 3:
        x = strof(E, arg(2))
        u = substr(s, iarg(0), iarg(1))
        return Ite(Eq(u, x), I0, E.uf("str_cmp", [s.sort()] * 2, IO)(u, x))
    if n in ("begin", "cbegin"): return Iter(lv, I0)
    if n in ("end", "cend"): return Iter(lv, Len(s))
    if n in ("rbegin",): return Iter(lv, I0, True)
    if n in ("rend",): return Iter(lv, Len(s), True)
    if n == "clear":
        E.write(st, lv, z3.StringVal("")); return None
    if n == "pop_back":
        E.write(st, lv, substr(s, I0, Sub(Len(s), I1))); return None
    if n == "assign":
        E.write(st, lv, strof(E, arg(0))); return lv
    if n in ("reserve", "shrink_to_fit"): return None
    if n == "erase":
        a = arg(0) if A else I0
        if isinstance(a, Iter):
            b = arg(1) if len(A) > 1 else Iter(a.c, Add(a.i, I1))
            E.write(st, lv, Cat(substr(s, I0, a.i), substr(s, b.i, Sub(Len(s), b.i))))
            return a
        a = E.toint(a)
        if len(A) > 1 and not (isval(iarg(1)) and iarg(1).as_long() == (1 << 64) - 1):
            c = iarg(1)
            E.write(st, lv, Cat(substr(s, I0, a), substr(s, Add(a, c), Sub(Len(s), Add(a, c)))))
        else: E.write(st, lv, substr(s, I0, a))
        return lv
    if n == "insert" and len(A) == 2 and not isinstance(arg(0), Iter):
        i = iarg(0)
        E.write(st, lv, Cat(substr(s, I0, i), strof(E, arg(1)), substr(s, i, Sub(Len(s), i))))
        return lv
    if n == "replace" and len(A) == 3:
        i, k, x = arg(0), arg(1), arg(2)
        if not isinstance(i, Iter) and isinstance(x, z3.ExprRef) and z3.is_string(x):
            i, k = E.toint(i), E.toint(k)
            E.write(st, lv, Cat(substr(s, I0, i), x, substr(s, Add(i, k), Sub(Len(s), Add(i, k)))))
            return lv
    # remaining const members: pure functions of the text
    if f.get("const"):
        ts = [s] + [E.term(arg(i)) for i in range(len(A))]
        E.trusted.add("pure: " + f["qn"])
        return uf_result(E, "str_" + n, ts, f["rt"], st)
    E.unsup("string method " + n)


def eval_method_args(E, n, A, st):
    """arguments come before the object is read: they may change it"""
    if n == "swap": return [None] * len(A)
    if n.startswith("emplace") and len(A) != 1: return [None] * len(A)
    return [aval(E, a, st) for a in A]


# ---- std::optional: a sequence of at most one element
def opt_value(E, v): return E.nth(v, I0)


def opt_method(E, f, e, st):
    n = f["n"]
    lv, sty, _ = find_method_obj(E, e, st)
    s = E.term(E.read(st, lv))
    if n in ("has_value", "operator bool"): return Not(Eq(Len(s), I0))
    if n == "value":
        r = opt_value(E, s)
        E.add_typefact(r, E.targ(E.types[E.strip(sty)], 0))
        return r
    if n == "value_or":
        return Ite(Eq(Len(s), I0), E.term(aval(E, e["args"][0], st)), opt_value(E, s))
    if n == "reset":
        E.write(st, lv, z3.Empty(s.sort())); return None
    if n == "emplace" and len(e["args"]) == 1:
        E.write(st, lv, z3.Unit(E.term(aval(E, e["args"][0], st)))); return lv.sub(("i", I0))
    E.unsup("optional method " + n)


# ---- sequences
def seq_method(E, f, e, st):
    n = f["n"]
    lv, sty, _ = find_method_obj(E, e, st)
    A = e["args"]
    vals = eval_method_args(E, n, A, st)
    s = E.term(E.read(st, lv))
    if E.accessed is not None: E.accessed[s.get_id()] = s
    if f.get("conv"): return lv
    if n == "size": return Len(s)
    if n == "empty": return Eq(Len(s), I0)
    if n in ("begin", "cbegin"): return Iter(lv, I0)
    if n in ("end", "cend"): return Iter(lv, Len(s))
    if n in ("rbegin", "crbegin"): return Iter(lv, I0, True)
    if n in ("rend", "crend"): return Iter(lv, Len(s), True)
    if n in ("at", "operator[]", "front", "back", "top"):
        i = I0 if n == "front" else Sub(Len(s), I1) if n in ("back", "top") else E.toint(vals[0])
        bounds(E, st, lv, i)
        r = lv.sub(("i", i))
        note_elem(E, st, r, sty)
        return r
    if n in ("push_back", "emplace_back", "push"):
        et = E.elem_type(sty)
        if n == "emplace_back" and (len(A) != 1 or E.sort(et) != E.term(vals[0]).sort()):
            r = E.user_rec(et)
            if r is None: E.unsup("emplace_back")
            v = emplace(E, et, A, st)
        else: v = vals[0]
        E.write(st, lv, Cat(s, z3.Unit(E.term(v))))
        return lv.sub(("i", Len(s)))
    if n in ("pop_back", "pop"):
        E.write(st, lv, z3.SubSeq(s, I0, Sub(Len(s), I1))); return None
    if n == "clear":
        E.write(st, lv, z3.Empty(s.sort())); return None
    if n in ("reserve", "shrink_to_fit"):
        for a in A: E.ev(a, st)
        return None
    if n == "data": return Iter(lv, I0)
    if n == "erase":
        a = vals[0]
        b = vals[1] if len(A) > 1 else Iter(a.c, Add(a.i, I1))
        E.write(st, lv, Cat(z3.SubSeq(s, I0, a.i), z3.SubSeq(s, b.i, Sub(Len(s), b.i))))
        return Iter(lv, a.i)
    if n == "insert":
        a = vals[0]
        x = vals[1]
        if len(A) == 3:
            y = vals[2]
            ins = sub_iter(E, x, y, st)
        elif isinstance(x, z3.ExprRef) and x.sort() == s.sort(): ins = x
        else: ins = z3.Unit(E.term(x))
        if a.i.eq(Len(s)): E.write(st, lv, Cat(s, ins))
        elif isval(a.i) and a.i.as_long() == 0: E.write(st, lv, Cat(ins, s))
        else: E.write(st, lv, Cat(z3.SubSeq(s, I0, a.i), ins, z3.SubSeq(s, a.i, Sub(Len(s), a.i))))
        return Iter(lv, a.i)
    if n == "append":
        a = vals[0]
        if isinstance(a, Iter): a = sub_iter(E, a, vals[1], st)
        E.write(st, lv, Cat(s, E.term(a)))
        return None
    if n == "swap":
        o = E.resolve(st, E.lv(A[0], st))
        v = E.read(st, o)
        E.write(st, o, s); E.write(st, lv, v)
        return None
    E.unsup("sequence method " + n)


def emplace(E, et, A, st):
    r = E.user_rec(et)
    n = E.recs[r]["n"].split("::")[-1]
    for m in E.recs[r]["m"]:
        f = E.funcs[m]
        if f.get("ctor") and f["ctor"] != "copy" and "body" in f and len(f["ps"]) >= len(A):
            if len(f["ps"]) != len(A): E.unsup("emplace with default arguments")
            t = E.temp(st, E.zero(et))
            E.call_user(m, t, eval_args(E, f, A, st), st)
            return E.read(st, t)
    E.unsup("emplace constructor")


# ---- sets and maps
def set_method(E, f, e, st):
    n = f["n"]
    lv, sty, _ = find_method_obj(E, e, st)
    A = e["args"]
    vals = eval_method_args(E, n, A, st)
    s = E.term(E.read(st, lv))
    mem, sz = E.acc(s, 0), E.acc(s, 1)
    if E.types[sty]["n"] != "llvm::StringSet":
        need_structural(E, E.targ(E.types[sty], 0))
        run_hash(E, sty, st)
    if n == "size": return sz
    if n == "empty": return Eq(sz, I0)
    if n in ("count", "contains"):
        x = E.term(vals[0])
        r = E.sel(mem, x)
        return Ite(r, I1, I0) if n == "count" else r
    if n in ("insert", "emplace") and len(A) == 1:
        x = E.term(vals[0])
        was = E.sel(mem, x)
        E.write(st, lv, set_insert(E, s, x))
        return Rec(("pair",), {"first": MapIter(lv, x, TRUE), "second": Not(was)})
    if n == "insert" and len(A) == 2:
        a, b = vals[0], vals[1]
        if isinstance(a, SetBegin) and isinstance(b, MapIter) and is_false(b.found):
            t = E.term(E.read(st, a.c))
            if t.sort() == s.sort():
                E.write(st, lv, E.uf("union_" + s.sort().name(), [s.sort()] * 2, s.sort())(s, t))
                return None
        E.unsup("range insertion into a set")
    if n == "find":
        x = E.term(vals[0])
        return MapIter(lv, x, E.sel(mem, x))
    if n in ("end", "cend"): return MapIter(lv, E.term(E.zero_sort(mem.sort().domain())), FALSE)
    if n == "begin": return SetBegin(lv)
    if n == "erase":
        x = vals[0]
        k = x.key if isinstance(x, MapIter) else E.term(x)
        was = E.sel(mem, k)
        E.write(st, lv, set_erase(E, s, k))
        return Ite(was, I1, I0)
    if n == "clear":
        E.write(st, lv, E.zero_sort(s.sort())); return None
    if n == "reserve": return None
    E.unsup("set method " + n)


class SetBegin:
    def __init__(self, c): self.c = c


def run_hash(E, sty, st): return


def map_method(E, f, e, st):
    n = f["n"]
    lv, sty, _ = find_method_obj(E, e, st)
    A = e["args"]
    av = eval_method_args(E, n, A, st)
    m = E.term(E.read(st, lv))
    mem, vals, sz = E.acc(m, 0), E.acc(m, 1), E.acc(m, 2)
    if n == "size": return sz
    if n == "empty": return Eq(sz, I0)
    if n in ("count", "contains"):
        r = E.sel(mem, E.term(av[0]))
        return Ite(r, I1, I0) if n == "count" else r
    if n == "find":
        k = E.term(av[0])
        return MapIter(lv, k, E.sel(mem, k))
    if n in ("end", "cend"): return MapIter(lv, E.zero_sort(mem.sort().domain()), FALSE)
    if n in ("at", "lookup", "operator[]"):
        k = E.term(av[0])
        if n == "at":
            s2 = st.copy(); s2.assume(Not(E.sel(mem, k)))
            if not s2.dead(): E.throws[-1].append((s2, None, "std::out_of_range"))
            st.assume(E.sel(mem, k))
        elif n == "operator[]" and not is_true(E.sel(mem, k)):
            E.write(st, lv, map_insert(E, m, k, E.zero_sort(vals.sort().range()), keep=True))
        return lv.sub(("m", k))
    if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if len(A) == 2: k, v = E.term(av[0]), av[1]
        else:
            p = av[0]
            k, v = E.term(E.field_get(p, "first")), E.field_get(p, "second")
        was = E.sel(mem, k)
        E.write(st, lv, map_insert(E, m, k, v, keep=n != "insert_or_assign"))
        return Rec(("pair",), {"first": MapIter(lv, k, TRUE), "second": Not(was)})
    if n == "erase":
        x = av[0]
        k = x.key if isinstance(x, MapIter) else E.term(x)
        was = E.sel(mem, k)
        E.write(st, lv, map_erase(E, m, k))
        return Ite(was, I1, I0)
    if n == "clear":
        E.write(st, lv, E.zero_sort(m.sort())); return None
    E.unsup("map method " + n)


# ---- streams
def stream_out(E, e, st):
    lv = E.resolve(st, E.lv(e["args"][0], st))
    a = e["args"][1]
    t = E.types[E.strip(a["t"])]
    cur = E.term(E.read(st, lv))
    if a["k"] == "Cast" and a["ck"] == "FunctionToPointerDecay" or t["k"] == "fn" or (t["k"] == "ptr" and E.types[t["to"]]["k"] == "fn"):
        x = a
        while "e" in x and isinstance(x["e"], dict): x = x["e"]
        nm = E.funcs[x["d"]["fn"]]["n"] if x["k"] == "Ref" and "fn" in x["d"] else "?"
        if nm == "endl": txt = StrVal("\n")
        elif nm == "flush": txt = StrVal("")
        else: E.unsup("stream manipulator " + nm)
    else:
        v = aval(E, a, st)
        txt = text_of(E, v, t, st)
    cur = E.term(E.read(st, lv))
    E.write(st, lv, Cat(cur, txt))
    return lv


def text_of(E, v, t, st):
    if isinstance(v, z3.ExprRef):
        if z3.is_string(v): return v
        if t["k"] == "int" and t["w"] == 8: return E.tochar(v)
        if v.sort() == IO and t["k"] in ("int", "enum"): return dec(E, v)
        if v.sort() == z3.BoolSort(): return Ite(v, StrVal("1"), StrVal("0"))
        if v.sort() == z3.RealSort(): return E.uf("real_text", [v.sort()], z3.StringSort())(v)
        if v.sort() == IO: return E.uf("ptr_text", [IO], z3.StringSort())(v)
        return E.uf("text_of_" + t["s"], [v.sort()], z3.StringSort())(v)
    E.unsup("output of " + t["s"])


def stream_method(E, f, e, st):
    n = f["n"]
    lv, sty, _ = find_method_obj(E, e, st)
    A = e["args"]
    if n == "operator<<":
        e2 = {"args": [e["o"]] + A}
        t = E.types[E.strip(A[0]["t"])]
        return stream_out(E, e2, st)
    if n == "str":
        if A:
            E.write(st, lv, aval(E, A[0], st)); return None
        return E.read(st, lv)
    if n in ("flush", "clear", "imbue"): return lv
    if n == "put":
        c = E.toint(aval(E, A[0], st))
        E.write(st, lv, Cat(E.term(E.read(st, lv)), E.tochar(c)))
        return lv
    if n == "write" and len(A) == 2:
        s = aval(E, A[0], st)
        E.write(st, lv, Cat(E.term(E.read(st, lv)), substr(s, I0, E.toint(aval(E, A[1], st)))))
        return lv
    if n in ("width", "fill", "precision", "setf", "flags"): E.unsup("stream formatting")
    E.unsup("stream method " + n)


# ---- clang and other library objects: pure accessors
PLURAL = {"body": "body", "children": "child", "child": "child", "parameters": "param", "param": "param", "arguments": "arg", "arg": "arg",
          "decls": "decl", "decl": "decl", "methods": "method", "meths": "method", "meth": "method", "fields": "field", "bases": "base", "ctors": "ctor",
          "params": "param", "instance_methods": "instmeth", "instmeth": "instmeth", "class_methods": "classmeth", "attrs": "attr",
          "ivars": "ivar", "properties": "prop", "prop": "prop", "protocols": "protocol", "all_referenced_protocols": "all_referenced_protocol",
          "enumerators": "enumerator", "overridden_methods": "overridden_methods", "catch_stmts": "catch", "redecls": "redecl", "inits": "init",
          "vbases": "vbase", "captures": "capture", "instance_properties": "instprop", "handlers": "handler"}
COUNT = {"getNumParams": "param", "param_size": "param", "getNumArgs": "arg", "size": None, "getNumCatchStmts": "catch", "getNumHandlers": "handler",
         "size_overridden_methods": "overridden_methods", "getNumBases": "base", "getNumInits": "init", "getNumElements": "element",
         "getNumSubExprs": "sub"}
ELEM = {"getParamDecl": "param", "getArg": "arg", "getHandler": "handler", "getCatchStmt": "catch", "getInit": "init", "getElement": "element"}


def base_of(n):
    return PLURAL.get(n, n[:-1] if n.endswith("s") else n)


def seq_class(E, f):
    c = f["cls"]
    c = {"clang::ObjCMethodDecl": "clang::ObjCMethodDecl"}.get(c, c)
    return c.split("::")[-1]


def seq_uf(E, f, base, recv, et, st):
    """the sequence of children an accessor family ranges over"""
    es = E.sort(et)
    r = E.uf("seq_%s_%s" % (seq_class(E, f), base), [recv.sort()], z3.SeqSort(es))(recv)
    E.seqelem[r.decl().name()] = et
    if E.accessed is not None: E.accessed[r.get_id()] = r
    return r


def elem_of_iter_ret(E, rt):
    t = E.types[E.strip(rt)]
    if t["k"] == "ptr": return t["to"] if E.types[t["to"]]["k"] in ("ptr", "rec") else None
    if t["k"] == "rec":
        if t["n"] in G["RANGES"]: return E.iter_elem(E.targ(t, 0))
        if t["n"] in ("llvm::ArrayRef", "llvm::MutableArrayRef"): return E.targ(t, 0)
        return E.iter_elem(E.strip(rt))
    return None


def uf_method(E, fid, f, e, st):
    n = f["n"]
    o = e["o"]
    lv, sty, ity = find_method_obj(E, e, st)
    A = e["args"]
    cls = f["cls"]
    if lv.root[0] == "o" and not lv.path: recv = lv.root[1]
    else:
        v = E.read(st, lv)
        if isinstance(v, (Iter, MapIter, Closure)): E.unsup("method %s on %s" % (n, type(v).__name__))
        recv = E.term(v)
    rt = E.types[f["rt"]]
    # kinds
    if n == "getStmtClass" and not A: return E.kindf(recv)
    if n == "getKind" and cls == "clang::Decl": return Sub(E.kindf(recv), z3.IntVal(1000))
    if n == "getTypeClass" and cls == "clang::Type": return Sub(E.kindf(recv), z3.IntVal(2000))
    # sequences
    if cls.startswith("clang::") and len(A) <= 1:
        m = re.match(r"(.*)_(r?begin|r?end)$", n)
        if m and not A:
            et = elem_of_iter_ret(E, f["rt"])
            if et is not None:
                s = seq_uf(E, f, base_of(m.group(1)) + "".join("_" + E.types[x["t"]]["s"].replace("::", "_") for a in f.get("ta", []) for x in ([a] if "p" not in a else a["p"]) if "t" in x), recv, et, st)
                if m.group(2)[0] == "r": return Iter(s, I0 if m.group(2) == "rbegin" else Len(s), True)
                return Iter(s, I0 if m.group(2) == "begin" else Len(s))
        if not A and (E.types[E.strip(f["rt"])].get("n") in G["RANGES"] or E.types[E.strip(f["rt"])].get("n") in ("llvm::ArrayRef", "llvm::MutableArrayRef")):
            et = elem_of_iter_ret(E, f["rt"])
            if et is not None: return seq_uf(E, f, base_of(n), recv, et, st)
        if not A and n in COUNT:
            b = COUNT[n]
            if n == "size" and cls == "clang::CompoundStmt": b = "body"
            if b is not None:
                s = find_seq(E, f, b, recv, st)
                if s is not None: return Len(s)
        if not A and n == "body_empty":
            s = find_seq(E, f, "body", recv, st)
            if s is not None: return Eq(Len(s), I0)
        if not A and n in ("body_front", "body_back"):
            s = find_seq(E, f, "body", recv, st)
            if s is not None:
                r = E.nth(s, I0 if n == "body_front" else Sub(Len(s), I1))
                E.add_typefact(r, f["rt"])
                return r
        if len(A) == 1 and n in ELEM:
            et = f["rt"]
            s = seq_uf(E, f, ELEM[n], recv, f["rt"], st)
            i = E.toint(aval(E, A[0], st))
            r = E.nth(s, i)
            E.add_typefact(r, f["rt"])
            return r
    if n in ("operator bool",) or f.get("conv"):
        if rt["k"] == "bool":
            if recv.sort() == IO: return E.to_bool(recv)
            return E.uf(cls + "_bool", [recv.sort()], z3.BoolSort())(recv)
    root = E.root_method(fid)
    name = E.funcs[root]["qn"]
    if len(E.funcs[root]["pt"]) != len(A): name = f["qn"]
    # template instantiations are distinguished by their type arguments
    for a in f.get("ta", []):
        for x in ([a] if "p" not in a else a["p"]):
            if "t" in x: name += "<" + E.types[x["t"]]["s"] + ">"
    return uf_call(E, name, f, [recv], lv if (recv.sort() != IO) else None, A, st)


def find_seq(E, f, base, recv, st):
    et = {"body": "clang::Stmt *", "param": "clang::ParmVarDecl *", "arg": "clang::Expr *", "catch": "clang::ObjCAtCatchStmt *",
          "handler": "clang::CXXCatchStmt *", "overridden_methods": "const clang::CXXMethodDecl *", "init": "clang::Expr *"}.get(base)
    if et is None: return None
    return seq_uf(E, f, base, recv, E.find_type(et), st)


def uf_call(E, name, f, recvs, selflv, A, st):
    """uninterpreted library function, with non-const references to values as extra results"""
    ts = list(recvs)
    outs = []
    for i, a in enumerate(A):
        pt = f["pt"][i] if i < len(f["pt"]) else None
        if pt is not None and E.types[pt]["k"] == "lref" and not E.types[E.types[pt]["to"]].get("c") and not E.by_identity(pt):
            lv = E.resolve(st, E.lv(a, st))
            outs.append((i, lv, E.term(E.read(st, lv)).sort()))
            ts.append(unset(E, E.term(E.read(st, lv)), E.types[pt]["to"]))
        elif pt is not None and E.types[pt]["k"] == "ptr" and not E.types[E.types[pt]["to"]].get("c") and not E.is_charptr(pt):
            v = aval(E, a, st)
            if isinstance(v, PtrTo):
                outs.append((i, v.lv, E.term(E.read(st, v.lv)).sort()))
                ts.append(E.term(E.read(st, v.lv)))
            else: ts.append(E.term(v))
        else: ts.append(arg_term(E, a, st))
    E.trusted.add("pure: " + name)
    r = uf_result(E, name + "/%d" % len(A), ts, f["rt"], st)
    for i, lv, s in outs:
        E.write(st, lv, E.uf(name + "_out%d" % i, [t.sort() for t in ts], s)(*ts))
    if selflv is not None and "cls" in f and not f.get("const") and f["n"] not in ("getTypePtr", "operator->") and E.types[f["rt"]]["k"] == "void":
        E.write(st, selflv, E.uf(name + "_self", [t.sort() for t in ts], recvs[0].sort())(*ts))
    return r


# ---- free functions
def call(E, e, st):
    if "fn" not in e:
        v = aval(E, e["callee"], st)
        return call_closure(E, v, e["args"], st)
    return dispatch_free(E, e["fn"], E.funcs[e["fn"]], e["args"], st, e)


def dispatch_free(E, fid, f, args, st, e):
    qn = f["qn"]
    if f["user"] or fid in E.contracts:
        b = E.builtin.get(f["n"]) if hasattr(E, "builtin") else None
        if b is not None and "cppvc" in qn: return b(E, f, args, st)
        if "body" in f or fid in E.contracts: return E.call_user(fid, None, eval_args(E, f, args, st), st)
        # declared, never defined here: a pure function of its arguments
        ts = [arg_term(E, a, st) for a in args]
        if E.types[f["rt"]]["k"] == "void": E.unsup("undefined " + qn)
        E.trusted.add("pure: " + qn)
        return uf_result(E, qn, ts, f["rt"], st)
    h = FREE.get(qn) or FREE.get(f["n"] if f["n"].startswith("__") else "")
    if h is not None: return h(E, f, args, st, e)
    if "clst" in f:  # static methods of library classes
        ts = [arg_term(E, a, st) for a in args]
        E.trusted.add("pure: " + qn)
        return uf_call(E, qn, f, [], None, args, st)
    if E.types[f["rt"]]["k"] == "void": E.unsup("library call " + qn)
    E.trusted.add("pure: " + qn)
    return uf_call(E, qn, f, [], None, args, st)


def lib_call_vals(E, fid, vals, st):
    f = E.funcs[fid]
    ts = [E.term(v) for v in vals]
    if f["n"] in CHARFN and len(ts) == 1: return charfn(E, f["n"], ts[0])
    return uf_result(E, f["qn"] + "/%d" % len(ts), ts, f["rt"], st)


CHARFN = {"toupper", "tolower", "isalpha", "islower", "isupper", "isdigit", "isspace", "isalnum"}


def charfn(E, n, c):
    def rng(a, b): return And(Le(z3.IntVal(ord(a)), c), Le(c, z3.IntVal(ord(b))))
    low, up, dig = rng("a", "z"), rng("A", "Z"), rng("0", "9")
    t = {"islower": low, "isupper": up, "isalpha": Or(low, up), "isdigit": dig, "isalnum": Or(low, up, dig)}
    if n == "toupper": return Ite(low, Sub(c, z3.IntVal(32)), c)
    if n == "tolower": return Ite(up, Add(c, z3.IntVal(32)), c)
    if n == "isspace": return Ite(Or(Eq(c, z3.IntVal(32)), And(Le(z3.IntVal(9), c), Le(c, z3.IntVal(13)))), z3.IntVal(1), I0)
    return Ite(t[n], z3.IntVal(1), I0)


def to_types(E, f):
    """type arguments of isa/cast-like templates, without the deduced operand type"""
    out = []
    for a in f.get("ta", []):
        for x in ([a] if "p" not in a else a["p"]):
            if "t" in x: out.append(x["t"])
    return out[:1] if len(out) <= 2 else out[:-1]


def isa_term(E, v, ti):
    t = E.types[E.strip(ti)]
    n = t.get("n", t["s"])
    if n.startswith("clang::") and n[7:] in E.kindr:
        lo, hi = E.kindr[n[7:]]
        k = E.kindf(v)
        if lo == hi: return Eq(k, z3.IntVal(lo))
        return And(Le(z3.IntVal(lo), k), Le(k, z3.IntVal(hi)))
    return E.uf("isa_" + n, [v.sort()], z3.BoolSort())(v)


def cast_arg(E, a, st):
    """pointer or reference operand of a cast template: (term, by reference?)"""
    t = E.types[E.strip(a["t"])]
    if t["k"] == "ptr" or t["k"] == "rec" and t["n"] in G["SMARTPTRS"]:
        return E.term(aval(E, a, st)), False
    if t["k"] == "rec" and E.is_glvalue(a):
        lv = E.resolve(st, E.lv(a, st))
        if lv.root[0] == "o" and not lv.path: return lv.root[1], True
    return E.term(aval(E, a, st)), False


def f_isa(E, f, args, st, e):
    v, _ = cast_arg(E, args[0], st)
    r = Or(*[isa_term(E, v, t) for t in to_types(E, f)])
    if f["n"] in ("isa_and_nonnull", "isa_and_present"): return And(Not(Eq(v, I0)), r)
    return r


def f_cast(E, f, args, st, e):
    v, ref = cast_arg(E, args[0], st)
    n = f["n"]
    tt = to_types(E, f)[0]
    if n in ("cast", "cast_or_null", "cast_if_present"):
        if ref: return LVal(("o", v, E.canon_cls(tt)))
        return v
    c = TRUE if static_class(E, args[0]["t"]) == E.types[E.strip(tt)].get("n", "") else isa_term(E, v, tt)
    return Ite(And(Not(Eq(v, I0)), c), v, I0)


def static_class(E, ti):
    t = E.types[E.strip(ti)]
    return E.types[t["to"]].get("n") if t["k"] == "ptr" else t.get("n")


def f_equal(E, f, args, st, e):
    """std::equal over texts; reading past the end of the second one is undefined"""
    a, b = two_iters(E, args, st)
    c = aval(E, args[2], st)
    if not isinstance(c, Iter) or a.rev or c.rev or len(args) > 4: E.unsup("std::equal")
    x, v = sub_iter(E, a, b, st), E.cont_val(st, c.c)
    if x.sort() != v.sort(): E.unsup("std::equal")
    if len(args) == 4:
        d = aval(E, args[3], st)
        if not isinstance(d, Iter): E.unsup("std::equal")
        return Eq(x, sub_iter(E, c, d, st))
    n = Sub(b.i, a.i)
    return Eq(x, substr(v, c.i, n) if z3.is_string(v) else z3.SubSeq(v, c.i, n))


def f_identity(E, f, args, st, e):
    lv = E.resolve(st, E.lv(args[0], st))
    return lv


def f_to_string(E, f, args, st, e):
    v = aval(E, args[0], st)
    t = E.types[E.strip(args[0]["t"])]
    if t["k"] == "float": return E.uf("real_to_string", [v.sort()], z3.StringSort())(v)
    return dec(E, E.toint(v))


def desugar(E, st, seqit, endit, cond_extra, bodyfn):
    """loop over iterator range [seqit,endit) with body(state, element place, index key)"""
    E.fresh_n += 1
    ik = ("idx", E.fresh_n)
    st.env[ik] = seqit.i
    c = seqit.c

    def cond(x): return And(Lt(x.env[ik], endit.i), *( [cond_extra(x)] if cond_extra else []))

    def body(x):
        from engine import Flow
        el = E.iter_lv(x, Iter(c, x.env[ik], seqit.rev))
        if seqit.et is not None: note_elem_t(E, x, el, seqit.et)
        return bodyfn(x, el, ik)

    def inc(x):
        if E.wlog is not None: E.wlog.add(("v", ik))
        x.env[ik] = Add(x.env[ik], I1)
    s = {"c": 1}
    fl = E.loop(st, cond, body, inc, s, ik)
    n = fl.normal
    if n is None: E.unsup("algorithm does not finish")
    st.env, st.heap, st.pc, st.nalloc = n.env, n.heap, n.pc, n.nalloc
    return ik


def two_iters(E, args, st):
    a, b = aval(E, args[0], st), aval(E, args[1], st)
    if not isinstance(a, Iter) or not isinstance(b, Iter): E.unsup("algorithm over unknown iterators")
    return a, b


def alg(name):
    def h(E, f, args, st, e):
        from engine import Flow
        if f["qn"].startswith("llvm::"):
            s = E.term(aval(E, args[0], st))
            lv = E.resolve(st, E.lv(args[0], st)) if E.is_glvalue(args[0]) else E.temp(st, s)
            a, b = Iter(lv, I0), Iter(lv, Len(s))
            args = [None] + args
        else:
            a, b = aval(E, args[0], st), aval(E, args[1], st)
            if isinstance(a, SetBegin) and isinstance(b, MapIter) and name in ("find", "count"):
                x0 = E.term(aval(E, args[2], st))
                r = E.sel(E.acc(E.term(E.read(st, a.c)), 0), x0)
                return MapIter(a.c, x0, r) if name == "find" else Ite(r, I1, I0)
            if not isinstance(a, Iter) or not isinstance(b, Iter): E.unsup("algorithm over unknown iterators")
        val = aval(E, args[2], st) if name not in ("find", "count") else None
        x0 = E.term(aval(E, args[2], st)) if name in ("find", "count", "is_contained") else None
        E.fresh_n += 1
        rk = ("alg", E.fresh_n)

        def pred(x, el):
            if x0 is not None: return Eq(E.term(E.read(x, el)), x0)
            return E.to_bool(E.rv(call_closure(E, val, None, x, [el]), x))
        init = {"count": I0, "count_if": I0, "any_of": FALSE, "all_of": TRUE, "none_of": TRUE, "for_each": I0,
                "find": b.i, "find_if": b.i, "find_if_not": b.i, "is_contained": FALSE}[name]
        st.env[rk] = init

        def body(x, el, ik):
            if E.wlog is not None: E.wlog.add(("v", rk))
            fl = Flow()
            if name == "for_each":
                call_closure(E, val, None, x, [el])
                fl.normal = x
                return fl
            c = pred(x, el)
            if name in ("count", "count_if"):
                x.env[rk] = Ite(c, Add(x.env[rk], I1), x.env[rk])
                fl.normal = x
                return fl
            if name in ("all_of", "find_if_not"): c = Not(c)
            B = x.copy(); B.assume(c)
            x.assume(Not(c))
            B.env[rk] = {"any_of": TRUE, "is_contained": TRUE, "all_of": FALSE, "none_of": FALSE}.get(name, B.env[ik])
            if not B.dead(): fl.brk.append(B)
            fl.normal = None if x.dead() else x
            return fl
        desugar(E, st, a, b, None, body)
        r = st.env[rk]
        if name.startswith("find"): return Iter(a.c, r, a.rev)
        if name == "for_each": return None
        return r
    return h


def f_begin_end(E, f, args, st, e):
    lv = E.resolve(st, E.lv(args[0], st))
    v = E.term(E.read(st, lv))
    return Iter(lv, I0 if f["n"] in ("begin", "cbegin") else Len(v))


def f_distance(E, f, args, st, e):
    a, b = two_iters(E, args, st)
    return Sub(b.i, a.i)


def f_next(E, f, args, st, e):
    a = aval(E, args[0], st)
    k = E.toint(aval(E, args[1], st)) if len(args) > 1 else I1
    if f["n"] == "prev": k = Sub(I0, k)
    if f["n"] == "advance":
        lv = E.resolve(st, E.lv(args[0], st))
        E.write(st, lv, Iter(a.c, Add(a.i, k), a.rev))
        return None
    return Iter(a.c, Add(a.i, k), a.rev)


def f_minmax(E, f, args, st, e):
    a, b = E.toint(aval(E, args[0], st)), E.toint(aval(E, args[1], st))
    return Ite(Lt(a, b) if f["n"] == "min" else Lt(b, a), a, b) if f["n"] == "min" else Ite(Lt(a, b), b, a)


def f_make_pair(E, f, args, st, e):
    return Rec(("pair",), {"first": aval(E, args[0], st), "second": aval(E, args[1], st)})


def f_charfn(E, f, args, st, e): return charfn(E, f["n"], E.toint(aval(E, args[0], st)))


def f_back_inserter(E, f, args, st, e):
    lv = E.resolve(st, E.lv(args[0], st))
    return Iter(lv, I0, False, True)


def f_copy(E, f, args, st, e):
    from engine import Flow
    a, b = two_iters(E, args, st)
    o = aval(E, args[2], st)
    if not isinstance(o, Iter): E.unsup("copy to a position")
    if not o.back:
        # written over [o, o+n): collected first, then put in place
        if f["n"] not in ("copy", "transform") or o.rev: E.unsup("copy to a position")
        cur = E.cont_val(st, o.c)
        n = Sub(b.i, a.i)
        E.oblige(st, And(Le(I0, o.i), Le(Add(o.i, n), Len(cur))), "copy-target-large-enough")
        E.fresh_n += 1
        tgt = LVal(("v", ("alg", E.fresh_n)))
        st.env[tgt.root[1]] = z3.Empty(cur.sort())
        final = o.c
    else: tgt, final = o.c, None

    def done(st):
        if final is None: return o
        cur = E.cont_val(st, final)
        new = E.term(E.read(st, tgt))
        m = Add(o.i, Len(new))
        E.write(st, final, Cat(substr(cur, I0, o.i), new, substr(cur, m, Sub(Len(cur), m))))
        return Iter(final, m)
    if f["n"] == "copy":
        E.write(st, tgt, Cat(E.term(E.read(st, tgt)), sub_iter(E, a, b, st)))
        return done(st)
    fn = aval(E, args[3], st)

    def body(x, el, ik):
        fl = Flow()
        if f["n"] == "transform":
            r = E.rv(call_closure(E, fn, None, x, [el]), x)
            E.write(x, tgt, Cat(E.term(E.read(x, tgt)), z3.Unit(E.term(r)) if not z3.is_string(E.term(E.read(x, tgt))) else E.tochar(E.toint(r))))
            fl.normal = x
            return fl
        c = E.to_bool(E.rv(call_closure(E, fn, None, x, [el]), x))
        if f["n"] == "remove_copy_if": c = Not(c)
        cur = E.term(E.read(x, tgt))
        v = E.term(E.read(x, el))
        E.write(x, tgt, Ite(c, Cat(cur, z3.Unit(v)), cur))
        fl.normal = x
        return fl
    desugar(E, st, a, b, None, body)
    return done(st)


def f_remove(E, f, args, st, e):
    """remove / remove_if: compacts in place; the tail is unspecified"""
    from engine import Flow
    a, b = two_iters(E, args, st)
    lv = a.c
    s = E.cont_val(st, lv)
    if not (isval(a.i) and a.i.as_long() == 0 and b.i.eq(Len(s))): E.unsup("remove on a part")
    isif = f["n"] == "remove_if"
    val = aval(E, args[2], st)
    E.fresh_n += 1
    ok = ("alg", E.fresh_n)
    st.env[ok] = z3.Empty(s.sort())
    src = E.temp(st, s)

    def body(x, el, ik):
        if E.wlog is not None: E.wlog.add(("v", ok))
        fl = Flow()
        if isif: c = E.to_bool(E.rv(call_closure(E, val, None, x, [el]), x))
        else: c = E.equal_prim(E.read(x, el), val, x)
        v = E.read(x, el)
        u = E.tochar(v) if z3.is_string(s) else z3.Unit(E.term(v))
        x.env[ok] = Ite(c, x.env[ok], Cat(x.env[ok], u))
        fl.normal = x
        return fl
    desugar(E, st, Iter(src, I0), Iter(src, Len(s)), None, body)
    kept = st.env[ok]
    tail = E.fresh("tail", s.sort())
    st.assume(z3.Length(kept) + z3.Length(tail) == Len(s))
    E.write(st, lv, Cat(kept, tail))
    return Iter(lv, Len(kept))


def f_accumulate(E, f, args, st, e):
    from engine import Flow
    a, b = two_iters(E, args, st)
    E.fresh_n += 1
    rk = ("alg", E.fresh_n)
    st.env[rk] = aval(E, args[2], st)
    fn = aval(E, args[3], st) if len(args) > 3 else None

    def body(x, el, ik):
        if E.wlog is not None: E.wlog.add(("v", rk))
        fl = Flow()
        if fn is not None: x.env[rk] = E.rv(call_closure(E, fn, None, x, [x.env[rk], el]), x)
        else:
            v, w = E.term(x.env[rk]), E.term(E.read(x, el))
            x.env[rk] = Cat(v, w) if z3.is_string(v) else Add(v, w)
        fl.normal = x
        return fl
    desugar(E, st, a, b, None, body)
    return st.env[rk]


def f_pure(E, f, args, st, e):
    return uf_call(E, f["qn"], f, [], None, args, st)


def f_exit(E, f, args, st, e):
    v = aval(E, args[0], st)
    E.throws[-1].append((st.copy(), v, "exit"))
    st.assume(FALSE)
    return None


def f_swap(E, f, args, st, e):
    a, b = E.resolve(st, E.lv(args[0], st)), E.resolve(st, E.lv(args[1], st))
    x, y = E.read(st, a), E.read(st, b)
    E.write(st, a, y); E.write(st, b, x)
    return None


def f_outs(E, f, args, st, e):
    key = ("g", f["qn"])
    if key not in st.env:
        st.env[key] = z3.StringVal(""); E.ginit[key] = st.env[key]
    return LVal(("v", key))


def f_unit_cast(E, f, args, st, e): return aval(E, args[0], st)


def f_reverse(E, f, args, st, e):
    a, b = two_iters(E, args, st)
    s = E.cont_val(st, a.c)
    E.write(st, a.c, E.uf("reverse_" + s.sort().sexpr(), [s.sort()], s.sort())(s))
    return None


def f_sort(E, f, args, st, e):
    a, b = two_iters(E, args, st)
    s = E.cont_val(st, a.c)
    tag = "" if len(args) < 3 else "_by%d" % e["l"]
    E.write(st, a.c, E.uf("sort%s_%s" % (tag, s.sort().sexpr()), [s.sort()], s.sort())(s))
    return None


def f_make_unique(E, f, args, st, e):
    ti = to_types_all(E, f)[0]
    ref = E.alloc(st, E.types[E.canon_cls(ti)]["s"])
    o = LVal(("o", ref, E.canon_cls(ti)))
    r = E.user_rec(ti)
    E.write(st, o, E.zero(ti))
    if r is None: return ref
    for m in E.recs[r]["m"]:
        g = E.funcs[m]
        if g.get("ctor") and g["ctor"] != "copy" and "body" in g and len(g["ps"]) == len(args):
            E.call_user(m, o, eval_args(E, g, args, st), st)
            return ref
    if args: E.unsup("make_unique constructor")
    return ref


def to_types_all(E, f):
    out = []
    for a in f.get("ta", []):
        for x in ([a] if "p" not in a else a["p"]):
            if "t" in x: out.append(x["t"])
    return out


def f_snprintf(E, f, args, st, e):
    """snprintf into a character array with a constant format"""
    import re
    a = args[0]
    while a["k"] == "Cast": a = a["e"]
    lv = E.resolve(st, E.lv(a, st))
    n = aval(E, args[1], st)
    fmt = aval(E, args[2], st)
    fmt = strlit(fmt) if isinstance(fmt, z3.ExprRef) else None
    if fmt is None: E.unsup("snprintf format")
    vals, out, pos, k = [aval(E, x, st) for x in args[3:]], [], 0, 0
    for m in re.finditer(r"%(%|([0-9]*)(?:l|ll|z)?([disu]))", fmt):
        out.append(StrVal(fmt[pos:m.start()])); pos = m.end()
        if m.group(1) == "%": out.append(StrVal("%")); continue
        v = vals[k]; k += 1
        if m.group(3) == "s": v = strof(E, v)
        else: v = dec(E, E.toint(v))
        out.append(v if not m.group(2) else E.uf("width_" + m.group(2), [z3.StringSort()], z3.StringSort())(v))
    out.append(StrVal(fmt[pos:]))
    if "%" in re.sub(r"%(%|([0-9]*)(?:l|ll|z)?([disu]))", "", fmt) or k != len(vals): E.unsup("snprintf format " + fmt)
    t = Cat(*out)
    E.trusted.add("snprintf formats as the C standard says")
    E.write(st, lv, substr(t, I0, Sub(n, I1)))
    return Len(t)


def f_get_iter(E, f, args, st, e):
    E.unsup("std::get")


FREE = {}
for _n in ("isa", "isa_and_nonnull", "isa_and_present"): FREE["llvm::" + _n] = f_isa; FREE["clang::" + _n] = f_isa
for _n in ("cast", "cast_or_null", "dyn_cast", "dyn_cast_or_null", "cast_if_present", "dyn_cast_if_present"):
    FREE["llvm::" + _n] = f_cast; FREE["clang::" + _n] = f_cast
for _n in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"): FREE[_n] = f_identity
FREE["std::to_string"] = f_to_string
FREE["llvm::to_string"] = f_to_string
FREE["llvm::itostr"] = f_to_string
FREE["llvm::utostr"] = f_to_string
for _n in ("count", "count_if", "any_of", "all_of", "none_of", "for_each", "find", "find_if", "find_if_not"): FREE["std::" + _n] = alg(_n); FREE["llvm::" + _n] = alg(_n)
FREE["llvm::is_contained"] = alg("is_contained")
for _n in ("begin", "end", "cbegin", "cend"): FREE["std::" + _n] = f_begin_end
FREE["std::equal"] = f_equal
FREE["std::distance"] = f_distance
for _n in ("next", "prev", "advance"): FREE["std::" + _n] = f_next
for _n in ("min", "max"): FREE["std::" + _n] = f_minmax
FREE["std::make_pair"] = f_make_pair
for _n in CHARFN: FREE[_n] = f_charfn; FREE["std::" + _n] = f_charfn
FREE["std::back_inserter"] = f_back_inserter
for _n in ("copy", "transform", "copy_if", "remove_copy_if"): FREE["std::" + _n] = f_copy
FREE["std::remove_if"] = f_remove
FREE["std::remove"] = f_remove
FREE["std::accumulate"] = f_accumulate
FREE["exit"] = f_exit
FREE["std::exit"] = f_exit
FREE["std::swap"] = f_swap
FREE["llvm::errs"] = f_outs
FREE["llvm::outs"] = f_outs
FREE["std::sort"] = f_sort
FREE["std::reverse"] = f_reverse
FREE["snprintf"] = FREE["std::snprintf"] = f_snprintf
FREE["std::make_unique"] = f_make_unique
FREE["std::make_shared"] = f_make_unique


def range_of(E, v, c, rt, st): return None
