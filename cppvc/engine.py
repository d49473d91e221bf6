"""cppvc engine: symbolic execution of exported C++ functions into verification conditions."""
import json, re, time
import z3
from core import *

I0, I1 = z3.IntVal(0), z3.IntVal(1)
STRINGS = {"std::basic_string", "llvm::StringRef", "llvm::SmallString", "std::basic_string_view",
           "llvm::StringLiteral", "llvm::Twine"}
SEQS = {"std::vector", "llvm::SmallVector", "llvm::SmallVectorImpl", "llvm::ArrayRef", "llvm::MutableArrayRef",
        "std::list", "std::deque", "std::initializer_list", "std::stack", "std::queue", "llvm::SmallVectorTemplateCommon",
        "llvm::SmallVectorTemplateBase", "llvm::OwningArrayRef", "std::array", "llvm::cl::list", "llvm::cl::list_storage"}
RANGES = {"llvm::iterator_range"}
SETS = {"std::set", "std::unordered_set", "llvm::SmallPtrSet", "llvm::DenseSet", "llvm::SmallSet", "llvm::StringSet"}
MAPS = {"std::map", "std::unordered_map", "llvm::DenseMap", "llvm::StringMap"}
SMARTPTRS = {"std::unique_ptr", "std::shared_ptr", "llvm::IntrusiveRefCntPtr"}
STREAMS = {"std::basic_ostream", "std::basic_stringstream", "std::basic_ostringstream", "llvm::raw_ostream",
           "llvm::raw_string_ostream", "std::basic_iostream", "std::basic_ofstream", "llvm::raw_svector_ostream"}


def mangle(s): return re.sub(r"[^A-Za-z0-9_]+", "_", s)


class Frame:
    __slots__ = ("id", "this", "fn", "rets", "thiscls")
    n = 0

    def __init__(self, fn, this):
        Frame.n += 1
        self.id, self.fn, self.this = Frame.n, fn, this


class Flow:
    """Outcomes of executing a statement."""
    __slots__ = ("normal", "brk", "cont", "ret")

    def __init__(self, normal=None): self.normal, self.brk, self.cont, self.ret = normal, [], [], []


class Engine:
    def __init__(self, data, opts=None):
        self.d = data
        self.types, self.funcs, self.recs, self.vars = data["types"], data["funcs"], data["recs"], data["vars"]
        self.opts = opts or {}
        self.sorts, self.dts, self.mapdts = {}, {}, {}
        self.ufs = {}            # name -> decl
        self.ufret = {}          # decl name -> type id (for facts)
        self.fresh_n = 0
        self.logic = {}          # decl name -> dict(fid, formals, body, heap)
        self.logic_by_fid = {}
        self.obls = []           # (name, hyps, goal, loc)
        self.frames = []
        self.throws = [[]]
        self.wlog = None
        self.wrefs, self.fieldtypes = {}, {}
        self.assumptions = set()
        self.lineno = 0
        self.taint = []
        self.termfacts = {}
        self.in_real = False
        self.loop_hook = None
        self.accessed = None
        self.range_facts = {}
        self.nloops = 0
        self.inlined = set()
        self.used_contracts = set()
        self.contracts = {}      # fid of target -> fid of contract
        self.verifying = None
        self.kindr = {}
        off = {"Stmt": 0, "Decl": 1000, "Type": 2000, "Attr": 3000}
        for fam, tab in data["kinds"].items():
            for n, (a, b) in tab.items():
                self.kindr[n] = (a + off[fam], b + off[fam])
        # Bases of Attr subclasses are not ranged; "Stmt"/"Decl"/"Type"/"Attr" as a whole:
        self.kindr["Stmt"] = (0, 999); self.kindr["Decl"] = (1000, 1999)
        self.kindr["Type"] = (2000, 2999); self.kindr["Attr"] = (3000, 3999)
        self.kindf = z3.Function("kind", z3.IntSort(), z3.IntSort())
        self.byqn = {}
        for i, f in enumerate(self.funcs):
            self.byqn.setdefault(f["qn"], []).append(i)
        self.recbyname = {}
        for i, r in enumerate(self.recs):
            self.recbyname.setdefault(r["n"], i)
        self.overriders = {}
        for i, f in enumerate(self.funcs):
            for o in f.get("ov", []): self.overriders.setdefault(o, []).append(i)
        import models
        self.models = models
        models.setup(self)

    # ------------------------------------------------------------ types and sorts
    def ty(self, i): return self.types[i]

    def strip(self, i):
        """type id without reference"""
        t = self.types[i]
        while t["k"] in ("lref", "rref"):
            i = t["to"]; t = self.types[i]
        return i

    def recname(self, i):
        t = self.types[self.strip(i)]
        return t.get("n") if t["k"] == "rec" else None

    def targ(self, t, k):
        a = t["ta"][k]
        return a.get("t")

    def is_string(self, i):
        t = self.types[self.strip(i)]
        if t["k"] == "ptr":
            p = self.types[t["to"]]
            return p["k"] == "int" and p["w"] == 8
        if t["k"] == "arr":
            p = self.types[t["to"]]
            return p["k"] == "int" and p["w"] == 8
        return t["k"] == "rec" and t["n"] in STRINGS

    def is_charptr(self, i):
        t = self.types[i]
        return t["k"] == "ptr" and self.types[t["to"]]["k"] == "int" and self.types[t["to"]]["w"] == 8

    def elem_type(self, i):
        """element type id of a sequence-like type"""
        t = self.types[self.strip(i)]
        if t["k"] == "arr": return t["to"]
        if t["k"] == "rec":
            if t["n"] in SEQS or t["n"] in SETS: return self.targ(t, 0)
            if t["n"] in RANGES: return self.iter_elem(self.targ(t, 0))
            for b in t.get("bn", []):
                pass
        return None

    def iter_elem(self, i):
        """element type id an iterator type points at (None when unknown)"""
        t = self.types[self.strip(i)]
        if t["k"] == "ptr": return t["to"]
        if t["k"] == "rec":
            n = t["n"]
            if n == "__gnu_cxx::__normal_iterator":
                return self.iter_elem(self.targ(t, 0))
            if n in ("std::reverse_iterator", "std::move_iterator"): return self.iter_elem(self.targ(t, 0))
            if n.startswith("std::_List") or n.startswith("std::_Rb_tree") or n.startswith("std::__detail::_Node"):
                return self.targ(t, 0)
            if n in ("clang::StmtIterator", "clang::ConstStmtIterator", "clang::StmtIteratorImpl"):
                return self.find_type("clang::Stmt *")
            if n == "clang::DeclContext::decl_iterator": return self.find_type("clang::Decl *")
            if n == "clang::ObjCInterfaceDecl::filtered_category_iterator": return self.find_type("clang::ObjCCategoryDecl *")
            if n in ("clang::DeclContext::specific_decl_iterator", "clang::DeclContext::filtered_decl_iterator", "clang::specific_attr_iterator"):
                want = self.types[self.targ(t, 0)]
                for j, u in enumerate(self.types):
                    if u["k"] == "ptr" and self.types[u["to"]].get("n") == want.get("n") and not self.types[u["to"]].get("c"):
                        return j
                return ("ptrto", self.targ(t, 0))
        return None

    def is_iter(self, i):
        t = self.types[self.strip(i)]
        if t["k"] == "rec":
            n = t["n"]
            return n in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::move_iterator") or \
                n.startswith("std::_List") or n.startswith("std::_Rb_tree") or n.startswith("std::__detail::_Node") or \
                n in ("clang::StmtIterator", "clang::ConstStmtIterator", "clang::DeclContext::decl_iterator",
                      "clang::DeclContext::specific_decl_iterator", "clang::DeclContext::filtered_decl_iterator", "clang::specific_attr_iterator", "clang::ObjCInterfaceDecl::filtered_category_iterator",
                      "clang::CastIterator")
        if t["k"] == "ptr":
            return False
        return False

    def find_type(self, s):
        for j, u in enumerate(self.types):
            if u["s"] == s: return j
        return ("str", s)

    def user_rec(self, i):
        t = self.types[self.strip(i)]
        if t["k"] == "rec" and "r" in t and not t.get("lambda"): return t["r"]
        return None

    def all_fields(self, r):
        """(qualified key, type) of every field including those of user bases"""
        rec = self.recs[r]
        out = []
        for b in rec["b"]:
            br = self.user_rec(b)
            if br is not None: out += self.all_fields(br)
        out += [(rec["n"] + "." + f["n"], f["t"]) for f in rec["f"]]
        return out

    def opaque(self, name):
        n = mangle(name)
        if n not in self.dts: self.dts[n] = z3.DeclareSort(n)
        return self.dts[n]

    def map_sort(self, K, V):
        key = ("map", K.sexpr(), V.sexpr())
        if key not in self.mapdts:
            dt = z3.Datatype(mangle("Map_%s_%s" % (K.sexpr(), V.sexpr())))
            n = dt.name
            dt.declare(n + "_mk", (n + "_mem", z3.ArraySort(K, z3.BoolSort())), (n + "_val", z3.ArraySort(K, V)), (n + "_sz", z3.IntSort()))
            self.mapdts[key] = dt.create()
        return self.mapdts[key]

    def set_sort(self, K):
        key = ("set", K.sexpr())
        if key not in self.mapdts:
            dt = z3.Datatype(mangle("Set_%s" % K.sexpr()))
            n = dt.name
            dt.declare(n + "_mk", (n + "_mem", z3.ArraySort(K, z3.BoolSort())), (n + "_sz", z3.IntSort()))
            self.mapdts[key] = dt.create()
        return self.mapdts[key]

    def pair_sort(self, A, B):
        key = ("pair", A.sexpr(), B.sexpr())
        if key not in self.mapdts:
            dt = z3.Datatype(mangle("Pair_%s_%s" % (A.sexpr(), B.sexpr())))
            n = dt.name
            dt.declare(n + "_mk", (n + "_first", A), (n + "_second", B))
            self.mapdts[key] = dt.create()
        return self.mapdts[key]

    def sort(self, i):
        if isinstance(i, tuple): return z3.IntSort()
        if self.types[i]["k"] in ("lref", "rref") and self.by_identity(i): return z3.IntSort()
        i = self.strip(i)
        if i in self.sorts: return self.sorts[i]
        t = self.types[i]
        k = t["k"]
        if k == "bool": s = z3.BoolSort()
        elif k in ("int", "enum"): s = z3.IntSort()
        elif k == "float": s = z3.RealSort()
        elif k in ("ptr", "nullptr"):
            if self.is_charptr(i): s = z3.StringSort()
            else: s = z3.IntSort()
        elif k == "arr":
            s = z3.StringSort() if self.is_string(i) else z3.SeqSort(self.sort(t["to"]))
        elif k == "rec":
            n = t["n"]
            if n in STRINGS or n in STREAMS: s = z3.StringSort()
            elif n in SEQS: s = z3.SeqSort(self.sort(self.targ(t, 0)))
            elif n == "std::optional": s = z3.SeqSort(self.sort(self.targ(t, 0)))   # at most one element
            elif n in RANGES:
                e = self.iter_elem(self.targ(t, 0))
                if e is None: raise Unsupported("range of " + t["s"])
                s = z3.SeqSort(self.sort(e))
            elif n in SETS:
                s = self.set_sort(self.sort(self.targ(t, 0)) if n != "llvm::StringSet" else z3.StringSort())
            elif n == "llvm::StringMap": s = self.map_sort(z3.StringSort(), self.sort(self.targ(t, 0)))
            elif n in MAPS: s = self.map_sort(self.sort(self.targ(t, 0)), self.sort(self.targ(t, 1)))
            elif n == "std::pair": s = self.pair_sort(self.sort(self.targ(t, 0)), self.sort(self.targ(t, 1)))
            elif n in SMARTPTRS: s = z3.IntSort()
            elif "r" in t and not t.get("lambda"):
                s = self.rec_sort(t["r"])
            else: s = self.opaque(t["s"].replace("const ", ""))
        else: s = self.opaque(t["s"])
        self.sorts[i] = s
        return s

    def rec_sort(self, r):
        key = ("rec", r)
        if key not in self.dts:
            rec = self.recs[r]
            n = mangle(rec["n"])
            dt = z3.Datatype(n)
            fs = self.all_fields(r)
            self.dts[key] = None
            dt.declare(n + "_mk", *[(n + "__" + mangle(f), self.sort(t)) for f, t in fs])
            self.dts[key] = dt.create()
            self.dts[("sortrec", self.dts[key].name())] = r
        if self.dts[key] is None: raise Unsupported("recursive record " + self.recs[r]["n"])
        return self.dts[key]

    # ------------------------------------------------------------ values
    def fresh(self, hint, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (mangle(hint), self.fresh_n), sort)

    def uf(self, name, argsorts, ret, rty=None):
        name = mangle(name)
        key = (name, tuple(s.sexpr() for s in argsorts), ret.sexpr())
        if key not in self.ufs:
            # overloads on sorts get distinct symbols
            n = name
            while any(k[0] != name and d.name() == n or (k[0] == name and k != key and d.name() == n) for k, d in self.ufs.items()):
                n += "_"
            if argsorts: self.ufs[key] = z3.Function(n, *(list(argsorts) + [ret]))
            else: self.ufs[key] = z3.Function(n, ret)
            if rty is not None: self.ufret[n] = rty
        return self.ufs[key]

    def term(self, v, st=None):
        """z3 term of a value"""
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, Rec):
            if v.cls[0] == "rec":
                s = self.rec_sort(v.cls[1])
                return s.constructor(0)(*[self.term(v.f[f]) for f, _ in self.all_fields(v.cls[1])])
            if v.cls[0] == "pair":
                a, b = self.term(v.f["first"]), self.term(v.f["second"])
                return self.pair_sort(a.sort(), b.sort()).constructor(0)(a, b)
        if isinstance(v, PtrTo):
            if v.lv.root[0] == "o" and not v.lv.path: return v.lv.root[1]
            return self.addr_const(v.lv)
        if isinstance(v, Poison): raise Unsupported("use of " + v.why)
        raise Unsupported("cannot make a term of " + type(v).__name__)

    def addr_const(self, lv):
        raise Unsupported("address of a local escapes")

    def field_get(self, v, key, rec=None):
        if isinstance(v, Rec):
            if key not in v.f: raise Unsupported("no field " + str(key))
            return v.f[key]
        if isinstance(v, Poison): raise Unsupported("use of " + v.why)
        if not isinstance(v, z3.ExprRef): raise Unsupported("field of " + type(v).__name__)
        s = v.sort()
        if isinstance(s, z3.DatatypeSortRef):
            c = s.constructor(0)
            for j in range(c.arity()):
                an = s.accessor(0, j).name()
                if an.endswith("__" + mangle(key)) or an.endswith("_" + mangle(key)) and "__" not in an or an == mangle(key):
                    if z3.is_app(v) and v.decl().name() == c.name(): return v.arg(j)
                    if z3.is_app_of(v, z3.Z3_OP_ITE):
                        return Ite(v.arg(0), self.field_get(v.arg(1), key), self.field_get(v.arg(2), key))
                    return s.accessor(0, j)(v)
            raise Unsupported("no accessor %s in %s" % (key, s))
        # field of an opaque library value
        if key in self.fieldtypes: return self.uf("field_%s_%s" % (mangle(str(s)), mangle(str(key))), [s], self.sort(self.strip(self.fieldtypes[key])))(v)
        raise Unsupported("field %s of opaque %s" % (key, s))

    def expand(self, v):
        """datatype term -> Rec"""
        if isinstance(v, Rec): return v
        if isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.DatatypeSortRef):
            r = self.dts.get(("sortrec", v.sort().name()))
            if r is not None:
                return Rec(("rec", r), {f: self.field_get(v, f) for f, _ in self.all_fields(r)})
            if v.sort().name().startswith("Pair_"):
                return Rec(("pair",), {"first": self.field_get(v, "first"), "second": self.field_get(v, "second")})
        raise Unsupported("cannot expand " + type(v).__name__)

    # maps and sets
    def acc(self, v, j):
        s = v.sort()
        if z3.is_app(v) and v.decl().name() == s.constructor(0).name(): return v.arg(j)
        if z3.is_app_of(v, z3.Z3_OP_ITE): return Ite(v.arg(0), self.acc(v.arg(1), j), self.acc(v.arg(2), j))
        return s.accessor(0, j)(v)

    def sel(self, a, k):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(k): return a.arg(2)
            if isval(a.arg(1)) and isval(k) and a.arg(1).as_long() != k.as_long(): a = a.arg(0); continue
            break
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY): return a.arg(0)
        if z3.is_app_of(a, z3.Z3_OP_ITE): return Ite(a.arg(0), self.sel(a.arg(1), k), self.sel(a.arg(2), k))
        return z3.Select(a, k)

    def zero(self, i):
        if isinstance(i, tuple): return I0
        i = self.strip(i)
        t = self.types[i]
        k = t["k"]
        if k == "bool": return FALSE
        if k in ("int", "enum"): return I0
        if k == "float": return z3.RealVal(0)
        if k in ("ptr", "nullptr"):
            if self.is_charptr(i): return z3.StringVal("")
            return I0
        if k == "rec":
            if "r" in t and not t.get("lambda"):
                return Rec(("rec", t["r"]), {f: self.zero(ft) for f, ft in self.all_fields(t["r"])})
            if t["n"] == "std::pair": return Rec(("pair",), {"first": self.zero(self.targ(t, 0)), "second": self.zero(self.targ(t, 1))})
            return self.zero_sort(self.sort(i), t["s"])
        if k == "arr":
            if self.is_string(i): return z3.StringVal("")
            if t["n"] > 0:
                return Cat(*[z3.Unit(self.term(self.zero(t["to"]))) for _ in range(t["n"])])
            return z3.Empty(self.sort(i))
        raise Unsupported("zero of " + t["s"])

    def zero_sort(self, s, name="?"):
        if s == z3.StringSort(): return z3.StringVal("")
        if s == z3.IntSort(): return I0
        if s == z3.BoolSort(): return FALSE
        if s == z3.RealSort(): return z3.RealVal(0)
        if isinstance(s, z3.SeqSortRef): return z3.Empty(s)
        if isinstance(s, z3.DatatypeSortRef):
            c = s.constructor(0)
            return c(*[self.zero_sort(c.domain(j)) for j in range(c.arity())])
        if isinstance(s, z3.ArraySortRef):
            return z3.K(s.domain(), self.zero_sort(s.range()))
        return self.uf("default_" + s.name(), [], s)()

    def sym(self, hint, i, facts=True):
        """a fresh symbolic value of a type"""
        if not isinstance(i, tuple) and self.types[i]["k"] in ("lref", "rref") and self.by_identity(i):
            c = self.fresh(hint, z3.IntSort())
            if facts: self.termfacts[c.get_id()] = (c, c >= 1)
            return c
        i = self.strip(i)
        t = self.types[i]
        if t["k"] == "rec" and "r" in t and not t.get("lambda"):
            return Rec(("rec", t["r"]), {f: self.sym(hint + "_" + f.split(".")[-1], ft) for f, ft in self.all_fields(t["r"])})
        c = self.fresh(hint, self.sort(i))
        if facts: self.add_typefact(c, i)
        return c

    def add_typefact(self, c, i):
        f = self.typefact(c, i)
        if f is not None: self.termfacts[c.get_id()] = (c, f)

    def int_range(self, t):
        w, sg = t.get("w", 32), t.get("sg", True)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

    def typefact(self, c, i):
        if isinstance(i, tuple): return None
        i = self.strip(i)
        t = self.types[i]
        if t["k"] in ("int", "enum"):
            lo, hi = self.int_range(t)
            return z3.And(c >= lo, c <= hi)
        if t["k"] == "ptr" and not self.is_charptr(i):
            p = self.types[t["to"]]
            fs = [c >= 0]
            if p["k"] == "rec":
                n = p["n"]
                if n.startswith("clang::"):
                    r = self.kindr.get(n[7:])
                    if r is not None:
                        fs.append(z3.Or(c == 0, z3.And(self.kindf(c) >= r[0], self.kindf(c) <= r[1])))
            return z3.And(*fs)
        return None

    def take(self, c, i):
        """the first i elements of a sequence, as a recursive function of i"""
        srt = c.sort()
        d = self.uf("take_" + srt.sexpr(), [srt, z3.IntSort()], srt)
        if d.name() not in self.schemas:
            def unfold(t):
                s, k = t.arg(0), t.arg(1)
                n = z3.Length(s)
                last = z3.SubString(s, k - 1, 1) if z3.is_string(s) else z3.Unit(s[k - 1])
                return z3.And(z3.Implies(k <= 0, t == z3.Empty(srt)),
                              z3.Implies(z3.And(k > 0, k <= n), t == z3.Concat(d(s, k - 1), last)),
                              z3.Implies(k == n, t == s), z3.Implies(z3.And(k >= 0, k <= n), z3.Length(t) == k))
            self.schemas[d.name()] = [unfold]
        return d(c, i)

    def drop(self, c, i):
        """all but the first i elements of a sequence, as a recursive function of i"""
        srt = c.sort()
        d = self.uf("drop_" + srt.sexpr(), [srt, z3.IntSort()], srt)
        if d.name() not in self.schemas:
            def unfold(t):
                s, k = t.arg(0), t.arg(1)
                n = z3.Length(s)
                first = z3.SubString(s, k, 1) if z3.is_string(s) else z3.Unit(s[k])
                return z3.And(z3.Implies(k >= n, t == z3.Empty(srt)), z3.Implies(k == 0, t == s),
                              z3.Implies(z3.And(k >= 0, k <= n), t == z3.SubSeq(s, k, n - k)),
                              z3.Implies(z3.And(k >= 0, k < n), z3.And(t == z3.Concat(first, d(s, k + 1)), z3.Length(t) == n - k)))
            self.schemas[d.name()] = [unfold]
        return d(c, i)

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b: return a
        za, zb = isinstance(a, z3.ExprRef), isinstance(b, z3.ExprRef)
        if za and zb:
            if a.sort() != b.sort(): return Poison("values of different sorts merged")
            return Ite(c, a, b)
        if isinstance(a, Poison): return a
        if isinstance(b, Poison): return b
        if isinstance(a, Rec) or isinstance(b, Rec):
            try:
                a, b = self.expand(a), self.expand(b)
            except Unsupported as e:
                return Poison(str(e))
            if a.cls == b.cls: return Rec(a.cls, {k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
            return Poison("records of different classes merged")
        if isinstance(a, Iter) and isinstance(b, Iter) and a.rev == b.rev and a.back == b.back and self.same_cont(a.c, b.c):
            return Iter(a.c, Ite(c, a.i, b.i), a.rev, a.back, a.et)
        if isinstance(a, MapIter) and isinstance(b, MapIter) and self.same_cont(a.c, b.c):
            return MapIter(a.c, Ite(c, a.key, b.key), Ite(c, a.found, b.found))
        if isinstance(a, PtrTo) and isinstance(b, PtrTo) and a.lv.same(b.lv): return a
        if isinstance(a, RefBind) and isinstance(b, RefBind):
            if a.lv.same(b.lv): return a
            la, lb = a.lv, b.lv
            if la.root[0] == "o" and lb.root[0] == "o" and not la.path and not lb.path and la.root[2] == lb.root[2]:
                return RefBind(LVal(("o", Ite(c, la.root[1], lb.root[1]), la.root[2])))
            return Poison("references to different places merged")
        if isinstance(a, PtrTo) and zb or isinstance(b, PtrTo) and za:
            try: return Ite(c, self.term(a), self.term(b))
            except Unsupported as e: return Poison(str(e))
        if isinstance(a, FnRef) and isinstance(b, FnRef) and a.fid == b.fid: return a
        if isinstance(a, Closure) and isinstance(b, Closure) and a.rec == b.rec: return a
        return Poison("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def same_cont(self, a, b):
        if isinstance(a, LVal) and isinstance(b, LVal): return a.same(b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
        return False

    def merge(self, A, B):
        """merge two disjoint states; returns (state, selector of A)"""
        if A is None or A.dead(): return (B, FALSE) if B is not None else (A, TRUE)
        if B is None or B.dead(): return A, TRUE
        k = 0
        while k < len(A.pc) and k < len(B.pc) and A.pc[k].eq(B.pc[k]): k += 1
        ca, cb = And(*A.pc[k:]), And(*B.pc[k:])
        st = State({}, {}, A.pc[:k], max(A.nalloc, B.nalloc))
        if A.nalloc != B.nalloc: pass
        o = Or(ca, cb)
        # c & x | !c & x'  with c,!c heading both branches
        if len(A.pc) == k + 1 and len(B.pc) == k + 1 and ca.eq(Not(cb)): o = TRUE
        elif len(A.pc) > k and len(B.pc) > k and A.pc[k].eq(Not(B.pc[k])):
            ra, rb = And(*A.pc[k + 1:]), And(*B.pc[k + 1:])
            h = A.pc[k]
            o = And(Implies(h, ra), Implies(Not(h), rb))
            # the branch head alone selects within the merged path condition
            ca = h
        st.assume(o)
        for key in A.env:
            if key in B.env:
                st.env[key] = self.merge_val(ca, A.env[key], B.env[key])
            elif key in self.ginit: st.env[key] = self.merge_val(ca, A.env[key], self.ginit[key])
        for key in B.env:
            if key not in A.env and key in self.ginit: st.env[key] = self.merge_val(ca, self.ginit[key], B.env[key])
        for key in set(A.heap) | set(B.heap):
            a, b = A.heap.get(key), B.heap.get(key)
            if a is None: a = self.heap0(key)
            if b is None: b = self.heap0(key)
            st.heap[key] = a if a.eq(b) else Ite(ca, a, b)
        return st, ca

    def merge_all(self, sts):
        r = None
        for s in sts:
            if s is None: continue
            r = s if r is None else self.merge(r, s)[0]
        return r

    # ------------------------------------------------------------ heap and places
    def heap0(self, key):
        """initial contents of a heap field: key = 'Class.field' or '*sort'"""
        c = self.heapinit.get(key)
        if c is None:
            s = self.heapsort[key]
            c = z3.Const("H0_" + mangle(key), z3.ArraySort(z3.IntSort(), s))
            self.heapinit[key] = c
        return c

    heapinit, heapsort = None, None

    def hget(self, st, key, ref, sort):
        self.heapsort.setdefault(key, sort)
        if self.hreads is not None: self.hreads.add(key)
        a = st.heap.get(key)
        if a is None:
            a = self.heap0(key)
            st.heap[key] = a
        return self.sel(a, ref)

    hreads = None

    def hset(self, st, key, ref, val):
        self.heapsort.setdefault(key, val.sort())
        a = st.heap.get(key)
        if a is None: a = self.heap0(key)
        if self.wlog is not None:
            self.wlog.add(("h", key))
            self.wrefs.setdefault(key, {})[ref.get_id()] = ref
        # overwrite of the same cell
        if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(ref): a = a.arg(0)
        st.heap[key] = z3.Store(a, ref, val)

    def read(self, st, lv):
        root = lv.root
        if root[0] == "v":
            if root[1] not in st.env: raise Unsupported("read of unknown variable %s" % (root[1],))
            v = st.env[root[1]]
            if isinstance(v, RefBind): return self.read(st, LVal(v.lv.root, v.lv.path + lv.path))
            if isinstance(v, Poison): raise Unsupported(v.why)
            path = lv.path
        elif root[0] == "h":
            v = self.hget(st, root[1], root[2], self.heapsort[root[1]] if root[1] in self.heapsort else self.sort(lv.ty))
            path = lv.path
        elif root[0] == "o":
            return self.read_obj(st, lv)
        else: raise Unsupported("read root")
        for p in path: v = self.step(st, v, p)
        return v

    def read_obj(self, st, lv):
        ref, cls = lv.root[1], lv.root[2]
        path = lv.path
        if path and path[0][0] == "f":
            f = self.fieldlv(LVal(lv.root), path[0][1], None)
            return self.read(st, LVal(f.root, path[1:]))
        t = self.types[cls]
        if t["k"] == "rec" and "r" in t:
            v = Rec(("rec", t["r"]), {f: self.hget(st, f, ref, self.sort(ft)) for f, ft in self.all_fields(t["r"])})
        else:
            v = self.deref_lib(st, ref, cls)
        for p in path: v = self.step(st, v, p)
        return v

    def deref_lib(self, st, ref, cls):
        s = self.sort(cls)
        return self.hget(st, "*" + self.types[cls]["s"].replace("const ", ""), ref, s)

    def step(self, st, v, p):
        if p[0] == "f": return self.field_get(v, p[1])
        if p[0] == "i":
            v = self.term(v)
            if not (isinstance(v.sort(), z3.SeqSortRef) or z3.is_string(v)): raise Unsupported("index into " + str(v.sort()))
            r = self.nth(v, p[1])
            return r
        if p[0] == "m":
            return self.sel(self.acc(self.term(v), 1), p[1])
        raise Unsupported("path")

    def nth(self, v, i):
        if self.accessed is not None: self.accessed[v.get_id()] = v
        r = Nth(v, i)
        if z3.is_string(v) and not isval(r):
            r = z3.If(r >= 128, r - 256, r)
        return r

    def tochar(self, c):
        """one-character string of a (signed) char value"""
        if isval(c):
            n = c.as_long()
            return StrVal(chr(n if n >= 0 else n + 256))
        # If(x>=128,x-256,x) of a string code: back to the code
        if z3.is_app_of(c, z3.Z3_OP_ITE) and z3.is_app_of(c.arg(2), z3.Z3_OP_STR_TO_CODE if hasattr(z3, "Z3_OP_STR_TO_CODE") else -1):
            code = c.arg(2)
            s = code.arg(0)
            if z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT): return s
        return z3.StrFromCode(z3.If(c < 0, c + 256, c))

    def upd(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if p[0] == "f":
            r = self.expand(v)
            if p[1] not in r.f: raise Unsupported("no field " + str(p[1]))
            f = dict(r.f)
            f[p[1]] = self.upd(st, r.f[p[1]], path[1:], val)
            return Rec(r.cls, f)
        v = self.term(v)
        if p[0] == "i":
            old = self.nth(v, p[1]) if len(path) > 1 else None
            nv = self.term(self.upd(st, old, path[1:], val))
            i = p[1]
            n = Len(v)
            if z3.is_string(v): u = self.tochar(nv)
            else: u = z3.Unit(nv)
            return Cat(z3.SubSeq(v, I0, i) if not (isval(i) and i.as_long() == 0) else z3.Empty(v.sort()), u,
                       z3.SubSeq(v, Add(i, I1), Sub(n, Add(i, I1))))
        if p[0] == "m":
            s = v.sort()
            mem, vals, sz = self.acc(v, 0), self.acc(v, 1), self.acc(v, 2)
            nv = self.term(self.upd(st, self.sel(vals, p[1]), path[1:], val))
            return s.constructor(0)(mem, z3.Store(vals, p[1], nv), sz)
        raise Unsupported("path")

    def write(self, st, lv, val):
        root = lv.root
        if root[0] == "v":
            v = st.env.get(root[1])
            if isinstance(v, RefBind): return self.write(st, LVal(v.lv.root, v.lv.path + lv.path), val)
            if self.wlog is not None: self.wlog.add(("v", root[1]))
            st.env[root[1]] = self.upd(st, v, lv.path, val) if lv.path else val
        elif root[0] == "h":
            if lv.path:
                old = self.hget(st, root[1], root[2], self.heapsort[root[1]] if root[1] in self.heapsort else self.sort(lv.ty))
                val = self.upd(st, old, lv.path, val)
            self.hset(st, root[1], root[2], self.term(val))
        elif root[0] == "o":
            if lv.path and lv.path[0][0] == "f":
                f = self.fieldlv(LVal(root), lv.path[0][1], None)
                return self.write(st, LVal(f.root, lv.path[1:]), val)
            t = self.types[root[2]]
            if t["k"] == "rec" and "r" in t:
                if lv.path: raise Unsupported("write path in object")
                r = self.expand(val)
                for f, ft in self.all_fields(t["r"]): self.hset(st, f, root[1], self.term(r.f[f]))
            else:
                key = "*" + t["s"].replace("const ", "")
                if lv.path: val = self.upd(st, self.hget(st, key, root[1], self.sort(root[2])), lv.path, val)
                self.hset(st, key, root[1], self.term(val))
        else: raise Unsupported("write root")

    def resolve(self, st, lv):
        """follow reference bindings"""
        while lv.root[0] == "v":
            v = st.env.get(lv.root[1])
            if isinstance(v, RefBind): lv = LVal(v.lv.root, v.lv.path + lv.path, lv.ty)
            else: break
        return lv

    def fieldlv(self, lv, key, fty):
        """place of a field; key is 'Class.field'"""
        if lv.root[0] == "o" and not lv.path:
            if fty is not None: self.heapsort.setdefault(key, self.sort(fty))
            elif key not in self.heapsort:
                for r in self.recs:
                    for f in r["f"]:
                        if r["n"] + "." + f["n"] == key: self.heapsort[key] = self.sort(f["t"])
            return LVal(("h", key, lv.root[1]), (), fty)
        if fty is not None: self.fieldtypes[key] = fty
        return lv.sub(("f", key), fty)

    def deref(self, st, v, pointee):
        """place designated by a pointer value"""
        if isinstance(v, PtrTo): return v.lv
        if isinstance(v, Iter): return self.iter_lv(st, v)
        if isinstance(v, Poison): raise Unsupported(v.why)
        if isinstance(v, z3.ExprRef):
            if v.sort() == z3.IntSort(): return LVal(("o", v, self.canon_cls(pointee)), ())
            if z3.is_string(v): return self.temp(st, v).sub(("i", I0))
        raise Unsupported("dereference of " + type(v).__name__)

    def canon_cls(self, i):
        """type id without const, so that objects compare"""
        t = self.types[i]
        if t.get("c"):
            s = t["s"].replace("const ", "", 1)
            for j, u in enumerate(self.types):
                if u["s"] == s: return j
        return i

    def temp(self, st, v):
        self.fresh_n += 1
        key = ("tmp", self.fresh_n)
        st.env[key] = v
        return LVal(("v", key))

    def iter_lv(self, st, it):
        if it.back: raise Unsupported("dereference of an inserter")
        i = it.i
        if it.rev:
            i = Sub(Sub(self.cont_len(st, it.c), I1), i)
        if isinstance(it.c, LVal): return it.c.sub(("i", i))
        t = self.temp(st, it.c)
        return t.sub(("i", i))

    def cont_val(self, st, c):
        return self.term(self.read(st, c)) if isinstance(c, LVal) else c

    def cont_len(self, st, c): return Len(self.cont_val(st, c))

    def acc_sort(self, s, k): return s.accessor(0, k).range()

    def alloc_index(self, name):
        d = self.allocidx
        if name not in d: d[name] = len(d) + 1
        if len(d) > 60: raise Unsupported("too many allocated classes")
        return d[name]

    def alloc(self, st, name="?"):
        """a new object of a class: its identity says how many of that class were made before"""
        key = ("g", "alloc " + name)
        if key not in st.env: st.env[key] = self.ginit.setdefault(key, I0)
        n = st.env[key]
        self.write(st, LVal(("v", key)), Add(n, I1))
        st.nalloc += 1
        return self.nth_new(name, n)

    def nth_new(self, name, n):
        i = self.alloc_index(name)
        if isval(n): return z3.IntVal(-(64 * (n.as_long() + 1) + i))
        return -(64 * (n + 1) + i)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, extra=()):
        if is_true(goal): self.trivial += 1; return
        self.obls.append((name, list(st.pc) + list(extra), goal, self.lineno))

    trivial = 0

    def unsup(self, msg):
        raise Unsupported("%s (line %d)" % (msg, self.lineno))

    # ------------------------------------------------------------ expressions
    def is_glvalue(self, e):
        return bool(e.get("lv")) or self.types[e["t"]]["k"] in ("lref",) or e["k"] == "Temp"

    def ev(self, e, st):
        if e is None: return None
        if e.get("l"): self.lineno = e["l"]
        m = getattr(self, "ev_" + e["k"], None)
        if m is None: self.unsup("expression " + e["k"] + " " + str(e.get("cls", "")))
        return m(e, st)

    def lv(self, e, st):
        """place of a glvalue expression"""
        if e.get("l"): self.lineno = e["l"]
        m = getattr(self, "lv_" + e["k"], None)
        if m is not None:
            r = m(e, st)
            if r is not None: return r
        v = self.ev(e, st)
        if isinstance(v, LVal): return v
        return self.temp(st, v)

    def rv(self, x, st):
        return self.read(st, x) if isinstance(x, LVal) else x

    def t_ev(self, e, st): return self.term(self.ev(e, st))

    def ev_Int(self, e, st): return z3.IntVal(int(e["v"]))
    def ev_Bool(self, e, st): return z3.BoolVal(e["v"])
    def ev_Float(self, e, st): return z3.RealVal(e["v"])
    def ev_Str(self, e, st): return StrVal("".join(chr(c) for c in e["v"]))
    def ev_Null(self, e, st): return I0
    def ev_Zero(self, e, st): return self.zero(e["t"])

    def ev_This(self, e, st):
        lv = self.frames[-1].this
        if lv is None: self.unsup("this outside a method")
        if lv.root[0] == "o" and not lv.path: return lv.root[1]
        return PtrTo(lv)

    def ev_Temp(self, e, st): return self.ev(e["e"], st)

    def lv_Temp(self, e, st):
        return self.temp(st, self.ev(e["e"], st))

    def varkey(self, vid):
        return (self.frames[-1].id, vid)

    def lookup(self, vid, st):
        f = self.frames[-1]
        k = (f.id, vid)
        if k in st.env: return k
        self.unsup("unknown local")

    def gkey(self, gid): return ("g", gid)

    def lv_Ref(self, e, st):
        d = e["d"]
        if "v" in d:
            cap = getattr(self.frames[-1].fn, "caps", None) if False else None
            k = (self.frames[-1].id, d["v"])
            if k not in st.env:
                self.unsup("unknown local " + d.get("n", "?"))
            return self.resolve(st, LVal(("v", k), (), e["t"]))
        if "gv" in d: return self.lv_global(d["gv"], st)
        return None

    def lv_global(self, gid, st):
        g = self.vars[gid]
        key = self.gkey(gid)
        if key not in st.env:
            t = self.types[g["t"]]
            if t["k"] == "rec" and t["n"] in STREAMS:
                st.env[key] = z3.StringVal("")
                self.ginit[key] = z3.StringVal("")
            elif g["qn"].endswith("::npos"):
                st.env[key] = self.ginit[key] = z3.IntVal((1 << 64) - 1)
            elif t.get("c") and "init" in g:
                v = self.ev_const_global(gid, st)
                st.env[key] = v
                self.ginit[key] = v
            else:
                if key not in self.ginit: self.ginit[key] = self.sym("g_" + g["qn"], g["t"])
                st.env[key] = self.ginit[key]
        return self.resolve(st, LVal(("v", key), (), g["t"]))

    ginit = None

    def ev_const_global(self, gid, st):
        g = self.vars[gid]
        save = self.frames
        self.frames = [Frame(None, None)]
        try: return self.ev_init(g["init"], g["t"], st)
        finally: self.frames = save

    def ev_Ref(self, e, st):
        d = e["d"]
        if "ec" in d: return z3.IntVal(d["val"])
        if "fn" in d: return FnRef(d["fn"])
        lv = self.lv_Ref(e, st)
        if lv is None: self.unsup("reference to " + str(d))
        return self.read(st, lv)

    def lv_Member(self, e, st):
        if "gv" in e: return self.lv_global(e["gv"], st)
        if "f" not in e: return None
        base = e["b"]
        if e["arrow"]:
            p = self.ev(base, st)
            blv = self.deref(st, p, self.types[base["t"]].get("to", e["clst"]) if self.types[base["t"]]["k"] == "ptr" else e["clst"])
        else:
            blv = self.resolve(st, self.lv(base, st))
        key = e["cls"] + "." + e["f"]
        rn = self.recname(e["clst"])
        if rn == "std::pair" or e["f"] in ("first", "second") and rn not in self.recbyname: key = e["f"]
        if blv.root[0] == "mi":  # map iterator target
            pass
        lv = self.fieldlv(blv, key, e["t"])
        # reference members designate what they refer to
        ft = self.field_type(e["clst"], e["f"])
        if ft is not None and self.types[ft]["k"] in ("lref", "rref"):
            v = self.read(st, lv)
            if isinstance(v, PtrTo): return v.lv
            if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort() and (self.sort(self.types[ft]["to"]) != z3.IntSort() or self.by_identity(self.types[ft]["to"])):
                return LVal(("o", v, self.canon_cls(self.types[ft]["to"])))
        return lv

    def field_type(self, clst, f):
        t = self.types[clst]
        if "r" in t:
            for x in self.recs[t["r"]]["f"]:
                if x["n"] == f: return x["t"]
        return None

    def ev_Member(self, e, st):
        if "gv" in e or "f" in e: return self.read(st, self.lv_Member(e, st))
        self.unsup("member function reference")

    # ---- casts
    def wrap(self, v, t):
        """conversion of an integer to the range of integer type t"""
        lo, hi = self.int_range(t)
        if isval(v):
            n = v.as_long()
            n = (n - lo) % (hi - lo + 1) + lo
            return z3.IntVal(n)
        m = hi - lo + 1
        w = self.uf("wrap_%s%d" % ("s" if lo else "u", t["w"]), [z3.IntSort()], z3.IntSort())
        rng = self.known_range(v)
        if rng and rng[0] >= lo and rng[1] <= hi: return v
        if z3.is_app_of(v, z3.Z3_OP_ITE) and (isval(v.arg(1)) or isval(v.arg(2))):
            return Ite(v.arg(0), self.wrap(v.arg(1), t), self.wrap(v.arg(2), t))
        if lo == 0 and rng and rng[0] >= -hi - 1 and rng[1] <= hi:
            return z3.If(v >= 0, v, v + m)
        if lo == 0: return z3.If(z3.And(v >= lo, v <= hi), v, w(v))
        return z3.If(z3.And(v >= lo, v <= hi), v, w(v))

    def known_range(self, v):
        """syntactic range of an integer term, or None"""
        if isval(v): return (v.as_long(), v.as_long())
        if v.get_id() in self.range_facts and self.range_facts[v.get_id()][0].eq(v): return self.range_facts[v.get_id()][1]
        if z3.is_app_of(v, z3.Z3_OP_SEQ_LENGTH):
            return (0, (1 << 31) - 1)   # assumption: no container holds 2^31 elements
        if z3.is_app_of(v, z3.Z3_OP_SEQ_INDEX) or v.decl().name() == "str_rindex": return (-1, (1 << 31) - 2)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = self.known_range(v.arg(1)), self.known_range(v.arg(2))
            if a and b: return (min(a[0], b[0]), max(a[1], b[1]))
        if z3.is_add(v):
            r = [self.known_range(c) for c in v.children()]
            if all(r): return (sum(x[0] for x in r), sum(x[1] for x in r))
        if v.num_args() == 0 and v.get_id() in self.termfacts:
            f = self.termfacts[v.get_id()][1]
            if z3.is_and(f) and f.num_args() == 2:
                a, b = f.arg(0), f.arg(1)
                if z3.is_ge(a) and z3.is_le(b) and isval(a.arg(1)) and isval(b.arg(1)):
                    return (a.arg(1).as_long(), b.arg(1).as_long())
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args():
            ti = self.ufret.get(v.decl().name())
            if ti is not None and not isinstance(ti, tuple):
                t = self.types[self.strip(ti)]
                if t["k"] in ("int", "enum"): return self.int_range(t)
        return None

    def to_bool(self, v):
        if isinstance(v, (PtrTo, Iter, FnRef, Closure)): return TRUE
        v = self.term(v)
        s = v.sort()
        if s == z3.BoolSort(): return v
        if s == z3.IntSort(): return Not(Eq(v, I0))
        if s == z3.RealSort(): return v != 0
        if s == z3.StringSort(): return TRUE
        self.unsup("truth of " + str(s))

    def ev_Cast(self, e, st):
        ck = e["ck"]
        sub = e["e"]
        if ck == "LValueToRValue": return self.rv(self.ev(sub, st), st)
        if ck in ("NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase",
                  "BaseToDerived", "UserDefinedConversion", "ConstructorConversion", "BitCast", "LValueBitCast", "BuiltinFnToFnPtr"):
            if ck == "ArrayToPointerDecay" and not self.is_string(sub["t"]):
                lv = self.lv(sub, st)
                return Iter(lv, I0)
            v = self.ev(sub, st)
            if ck in ("DerivedToBase", "UncheckedDerivedToBase") and self.is_string(e["t"]) and not self.is_string(sub["t"]):
                v = self.term(self.rv(v, st))
                if not z3.is_string(v): return self.uf("text_of_" + v.sort().name(), [v.sort()], z3.StringSort())(v)
            return v
        if ck == "IntegralCast":
            v = self.t_ev(sub, st)
            t = self.types[e["t"]]
            if v.sort() == z3.BoolSort(): v = Ite(v, I1, I0)
            if t["k"] == "bool": return self.to_bool(v)
            ts = self.types[self.strip(sub["t"])]
            if ts["k"] in ("int", "enum") and t["k"] in ("int", "enum"):
                a, b = self.int_range(ts), self.int_range(t)
                if a[0] >= b[0] and a[1] <= b[1]: return v
                if not isval(v) and self.known_range(v) is None: return self.wrap_from(v, a, t)
            if t["k"] in ("int", "enum"): return self.wrap(v, t)
            return v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return self.to_bool(self.ev(sub, st))
        if ck == "NullToPointer": return I0
        if ck == "NullToMemberPointer": return I0
        if ck == "ToVoid":
            self.ev(sub, st); return None
        if ck == "IntegralToFloating": return z3.ToReal(self.t_ev(sub, st))
        if ck == "FloatingCast": return self.ev(sub, st)
        if ck == "FloatingToIntegral":
            v = self.t_ev(sub, st)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == "Dynamic":
            v = self.t_ev(sub, st)
            return Ite(self.uf("dyn_" + self.types[e["t"]]["s"], [v.sort()], z3.BoolSort())(v), v, I0)
        self.unsup("cast " + ck)

    def wrap_from(self, v, rng, t):
        lo, hi = self.int_range(t)
        m = hi - lo + 1
        if lo == 0 and rng[0] >= -m and rng[1] <= hi: return z3.If(v >= 0, v, v + m)
        if lo < 0 and rng[0] >= 0 and rng[1] < m: return z3.If(v <= hi, v, v - m)
        return self.wrap(v, t)

    def lv_Cast(self, e, st):
        if e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase") and self.is_string(e["t"]) and not self.is_string(e["e"]["t"]): return None
        if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
            return self.lv(e["e"], st)
        return None

    # ---- operators
    def ev_Un(self, e, st):
        op = e["op"]
        if op == "!": return Not(self.to_bool(self.ev(e["e"], st)))
        if op == "&":
            sub = e["e"]
            if sub["k"] == "Ref" and "fn" in sub["d"]: return FnRef(sub["d"]["fn"])
            if sub["k"] == "Member" and "m" in sub: return FnRef(sub["m"])
            lv = self.resolve(st, self.lv(sub, st))
            if lv.root[0] == "o" and not lv.path: return lv.root[1]
            if lv.path and lv.path[-1][0] == "i":
                return Iter(LVal(lv.root, lv.path[:-1]), lv.path[-1][1])
            return PtrTo(lv)
        if op == "*":
            return self.read(st, self.lv_Un(e, st))
        if op in ("++", "--"):
            lv = self.lv(e["e"], st)
            old = self.read(st, lv)
            new = self.incr(old, 1 if op == "++" else -1, st)
            self.write(st, lv, new)
            return old if e["post"] else new
        v = self.ev(e["e"], st)
        if op == "-":
            v = self.term(v)
            if v.sort() == z3.BoolSort(): v = Ite(v, I1, I0)
            return z3.IntVal(-v.as_long()) if isval(v) else -v
        if op == "+": return v
        if op == "~":
            return self.uf("bitnot", [z3.IntSort()], z3.IntSort())(self.term(v))
        if op == "__extension__": return v
        self.unsup("unary " + op)

    def incr(self, v, k, st):
        if isinstance(v, Iter): return Iter(v.c, Add(v.i, z3.IntVal(k)), v.rev, v.back, v.et)
        if isinstance(v, MapIter): self.unsup("map iterator increment")
        v = self.term(v)
        if v.sort() != z3.IntSort(): self.unsup("increment of " + str(v.sort()))
        return Add(v, z3.IntVal(k))

    def lv_Un(self, e, st):
        op = e["op"]
        if op == "*":
            v = self.ev(e["e"], st)
            pt = self.types[e["e"]["t"]]
            return self.deref(st, v, pt.get("to", e["t"]) if pt["k"] == "ptr" else e["t"])
        if op in ("++", "--") and not e["post"]:
            lv = self.lv(e["e"], st)
            self.write(st, lv, self.incr(self.read(st, lv), 1 if op == "++" else -1, st))
            return lv
        return None

    def branch(self, st, c, fa, fb):
        """evaluate fa in st&c, fb in st&!c, merge into st; returns merged value"""
        if is_true(c): return fa(st)
        if is_false(c): return fb(st)
        A, B = st.copy(), st.copy()
        A.assume(c); B.assume(Not(c))
        if A.dead():
            st.assume(Not(c)); return fb(st)
        if B.dead():
            st.assume(c); return fa(st)
        va, vb = fa(A), fb(B)
        M, sel = self.merge(A, B)
        st.env, st.heap, st.pc, st.nalloc = M.env, M.heap, M.pc, M.nalloc
        if va is None or vb is None: return None
        if M is A or (M is not B and is_true(sel)): return va
        if M is B: return vb
        if isinstance(va, LVal) or isinstance(vb, LVal):
            if isinstance(va, LVal) and isinstance(vb, LVal) and va.same(vb): return va
            if isinstance(va, LVal) and isinstance(vb, LVal) and va.root[0] == "o" and vb.root[0] == "o" and not va.path and not vb.path:
                return LVal(("o", Ite(sel, va.root[1], vb.root[1]), va.root[2]))
            va, vb = self.rv(va, st), self.rv(vb, st)
        r = self.merge_val(sel, va, vb)
        if isinstance(r, Poison): self.unsup(r.why)
        return r

    def ev_Bin(self, e, st):
        op = e["op"]
        if op == "&&":
            c = self.to_bool(self.ev(e["a"], st))
            return self.branch(st, c, lambda s: self.to_bool(self.ev(e["b"], s)), lambda s: FALSE)
        if op == "||":
            c = self.to_bool(self.ev(e["a"], st))
            return self.branch(st, c, lambda s: TRUE, lambda s: self.to_bool(self.ev(e["b"], s)))
        if op == ",":
            self.ev(e["a"], st)
            return self.ev(e["b"], st)
        if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=", "<=>")):
            return self.read(st, self.lv_Bin(e, st))
        a = self.ev(e["a"], st)
        b = self.ev(e["b"], st)
        return self.binop(op, a, b, e["t"], st, e["a"]["t"])

    def lv_Bin(self, e, st):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], st)
            return self.lv(e["b"], st)
        if op == "=":
            v = self.ev(e["b"], st)
            v = self.rv(v, st)
            lv = self.lv(e["a"], st)
            self.write(st, lv, v)
            return lv
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            b = self.rv(self.ev(e["b"], st), st)
            lv = self.lv(e["a"], st)
            a = self.read(st, lv)
            ct = e.get("ct", e["t"])
            tt = self.types[e["a"]["t"]]
            r = self.binop(op[:-1], a, b, ct, st, e["a"]["t"])
            if tt["k"] == "int" and isinstance(r, z3.ExprRef) and r.sort() == z3.IntSort() and tt["w"] < 32: r = self.wrap(r, tt)
            if tt["k"] == "bool": r = self.to_bool(r)
            self.write(st, lv, r)
            return lv
        return None

    def toint(self, v):
        v = self.term(v)
        if v.sort() == z3.BoolSort(): return Ite(v, I1, I0)
        return v

    def equal(self, a, b, st):
        """structural equality of two values"""
        if isinstance(a, Iter) and isinstance(b, Iter):
            if self.same_cont(a.c, b.c): return Eq(a.i, b.i)
            ca, cb = self.cont_val(st, a.c), self.cont_val(st, b.c)
            if ca.eq(cb): return Eq(a.i, b.i)
            self.unsup("iterators of different containers")
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            # equal when both are the end, or both present at the same key
            return Or(And(Not(a.found), Not(b.found)), And(a.found, b.found, Eq(a.key, b.key)))
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            if isinstance(a, PtrTo) and isinstance(b, PtrTo):
                if a.lv.same(b.lv): return TRUE
                self.unsup("comparison of addresses")
            o = b if isinstance(a, PtrTo) else a
            if isinstance(o, z3.ExprRef) and o.sort() == z3.IntSort(): return FALSE
        if isinstance(a, (Iter,)) or isinstance(b, (Iter,)): self.unsup("iterator comparison")
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
            return And(*[self.equal(a.f[k], b.f[k], st) for k in a.f])
        return Eq(self.term(a), self.term(b))

    def binop(self, op, a, b, rt, st, at=None):
        if op == "==": return self.equal_prim(a, b, st)
        if op == "!=": return Not(self.equal_prim(a, b, st))
        if isinstance(a, Iter) and not isinstance(b, Iter) and op in ("+", "-"):
            k = self.toint(b)
            return Iter(a.c, Add(a.i, k) if op == "+" else Sub(a.i, k), a.rev, a.back, a.et)
        if isinstance(b, Iter) and op == "+": return self.binop(op, b, a, rt, st)
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == "-": return Sub(a.i, b.i)
            return self.binop(op, a.i, b.i, rt, st)
        a, b = self.term(a), self.term(b)
        if a.sort() == z3.RealSort() or b.sort() == z3.RealSort():
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "<": lambda: a < b,
                 "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}
            return f[op]()
        if z3.is_string(a) and z3.is_string(b):
            if op == "<": return a < b
            if op == ">": return b < a
            if op == "<=": return a <= b
            if op == ">=": return b <= a
            self.unsup("string operator " + op)
        if z3.is_string(a) and op == "+":
            b = self.toint(b)
            return z3.SubSeq(a, b, Sub(Len(a), b))
        a, b = self.toint(a), self.toint(b)
        if op == "<": return Lt(a, b)
        if op == ">": return Lt(b, a)
        if op == "<=": return Le(a, b)
        if op == ">=": return Le(b, a)
        t = self.types[rt]
        unsigned = t["k"] == "int" and not t["sg"]
        if op == "+":
            return Add(a, b)
        if op == "-":
            r = Sub(a, b)
            if unsigned and not isval(r):
                return z3.If(a >= b, r, r + (1 << t["w"]))
            if unsigned: return self.wrap(r, t)
            return r
        if op == "*":
            if isval(a) and isval(b): return z3.IntVal(a.as_long() * b.as_long())
            return a * b
        if op == "/":
            if isval(b) and b.as_long() > 0:
                return z3.If(a >= 0, a / b, -((-a) / b))
            return self.uf("idiv", [z3.IntSort()] * 2, z3.IntSort())(a, b)
        if op == "%":
            if isval(b) and b.as_long() > 0:
                return z3.If(a >= 0, a % b, -((-a) % b))
            return self.uf("imod", [z3.IntSort()] * 2, z3.IntSort())(a, b)
        if op in ("<<", ">>", "&", "|", "^"):
            if isval(a) and isval(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal({"<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]())
            if op == "<<" and isval(b): return a * (1 << b.as_long())
            if op in ("&", "|") and at is not None and self.types[self.strip(at)]["k"] == "bool":
                f = And if op == "&" else Or
                return Ite(f(Not(Eq(a, I0)), Not(Eq(b, I0))), I1, I0)
            if op in ("&", "|", "^") and (not isval(a), a.sexpr()) < (not isval(b), b.sexpr()): a, b = b, a
            return self.uf({"<<": "shl", ">>": "shr", "&": "band", "|": "bor", "^": "bxor"}[op], [z3.IntSort()] * 2, z3.IntSort())(a, b)
        self.unsup("operator " + op)

    def equal_prim(self, a, b, st):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() != b.sort():
            if a.sort() == z3.BoolSort(): a = Ite(a, I1, I0)
            if b.sort() == z3.BoolSort(): b = Ite(b, I1, I0)
            if z3.is_string(a) and b.sort() == z3.IntSort() or z3.is_string(b) and a.sort() == z3.IntSort():
                return FALSE  # char pointer against null: char pointers are modelled as non-null texts
        return self.equal(a, b, st)

    def ev_Cond(self, e, st):
        c = self.to_bool(self.ev(e["c"], st))
        if e.get("lv"):
            r = self.branch(st, c, lambda s: self.lv(e["a"], s), lambda s: self.lv(e["b"], s))
            return self.rv(r, st)
        return self.branch(st, c, lambda s: self.ev_or_throw(e["a"], s), lambda s: self.ev_or_throw(e["b"], s))

    def ev_or_throw(self, e, s): return self.ev(e, s)

    def lv_Cond(self, e, st):
        c = self.to_bool(self.ev(e["c"], st))
        r = self.branch(st, c, lambda s: self.lv(e["a"], s), lambda s: self.lv(e["b"], s))
        return r if isinstance(r, LVal) else self.temp(st, r)

    def lv_Index(self, e, st):
        a = self.ev(e["a"], st)
        i = self.toint(self.ev(e["i"], st))
        if isinstance(a, Iter):
            return self.iter_lv(st, Iter(a.c, Add(a.i, i), a.rev))
        if isinstance(a, z3.ExprRef) and z3.is_string(a): return self.temp(st, a).sub(("i", i))
        self.unsup("subscript")

    def ev_Index(self, e, st): return self.read(st, self.lv_Index(e, st))

    def ev_Throw(self, e, st):
        v = None
        if e["e"] is not None:
            try: v = self.ev(e["e"], st)
            except Unsupported: v = None
        s2 = st.copy()
        self.throws[-1].append((s2, v, self.types[e["et"]]["s"] if "et" in e else "?"))
        st.assume(FALSE)
        return None

    def ev_Lambda(self, e, st):
        r = self.recs[e["r"]]
        caps = {}
        this = None
        for c, a in zip(r["caps"], e["args"]):
            if c.get("this"): this = self.frames[-1].this
            elif c.get("ref"): caps[c["v"]] = RefBind(self.resolve(st, self.lv(a, st)))
            else: caps[c["v"]] = self.rv(self.ev(a, st), st)
        return Closure(e["r"], caps, this)

    def ev_InitList(self, e, st):
        t = self.types[self.strip(e["t"])]
        if t["k"] in ("arr",) or (t["k"] == "rec" and t["n"] in SEQS):
            et = t["to"] if t["k"] == "arr" else self.targ(t, 0)
            return self.seq_of([self.rv(self.ev(a, st), st) for a in e["args"]], self.sort(e["t"]))
        if t["k"] == "rec" and "r" in t:
            r = self.zero(e["t"])
            fs = self.all_fields(t["r"])
            for (f, ft), a in zip(fs, e["args"]): r.f[f] = self.ev_init(a, ft, st)
            return r
        if not e["args"]: return self.zero(e["t"])
        if len(e["args"]) == 1: return self.rv(self.ev(e["args"][0], st), st)
        self.unsup("initializer list for " + t["s"])

    def seq_of(self, vals, sort):
        if not vals: return z3.Empty(sort)
        return Cat(*[z3.Unit(self.term(v)) for v in vals])

    def ev_init(self, e, ty, st):
        """initial value of a variable or field of type ty"""
        t = self.types[ty]
        if t["k"] in ("lref", "rref"):
            lv = self.resolve(st, self.lv(e, st))
            return RefBind(lv)
        v = self.ev(e, st)
        return self.rv(v, st)

    def ev_Ctor(self, e, st):
        return self.models.construct(self, e, st, None)

    def ev_InhCtor(self, e, st): self.unsup("inherited constructor")

    def ev_New(self, e, st):
        if e["arr"]: self.unsup("array new")
        ty = self.canon_cls(e["ty"])
        ref = self.alloc(st, self.types[ty]["s"])
        o = LVal(("o", ref, ty))
        if e["init"] is not None:
            if e["init"]["k"] == "Ctor": self.models.construct(self, e["init"], st, o)
            else: self.write(st, o, self.rv(self.ev(e["init"], st), st))
        else:
            self.write(st, o, self.zero(ty))
        return ref

    def ev_Delete(self, e, st):
        self.ev(e["e"], st)
        return None

    # ---- calls
    def ev_MCall(self, e, st): return self.rv(self.models.mcall(self, e, st), st)
    def lv_MCall(self, e, st):
        r = self.models.mcall(self, e, st)
        return r if isinstance(r, LVal) else self.temp(st, r)
    def ev_OpCall(self, e, st): return self.rv(self.models.opcall(self, e, st), st)
    def lv_OpCall(self, e, st):
        r = self.models.opcall(self, e, st)
        return r if isinstance(r, LVal) else self.temp(st, r)
    def ev_Call(self, e, st): return self.rv(self.models.call(self, e, st), st)
    def lv_Call(self, e, st):
        r = self.models.call(self, e, st)
        return r if isinstance(r, LVal) else self.temp(st, r)

    def exact_override(self, fid, cls):
        """final overrider of method fid in class type cls"""
        t = self.types[cls]
        if "r" not in t: return fid
        r = t["r"]
        def search(r):
            for m in self.recs[r].get("m", []):
                if m == fid or self.overrides(m, fid): return m
            for b in self.recs[r]["b"]:
                br = self.user_rec(b)
                if br is not None:
                    x = search(br)
                    if x is not None: return x
            return None
        x = search(r)
        return fid if x is None else x

    def overrides(self, m, fid):
        for o in self.funcs[m].get("ov", []):
            if o == fid or self.overrides(o, fid): return True
        return False

    def root_method(self, fid):
        ov = self.funcs[fid].get("ov", [])
        return self.root_method(ov[0]) if ov else fid

    def call_user(self, fid, this, args, st):
        """call of a function with a body: by contract when it has one, inlined otherwise.
        args are values, or LVals for reference parameters."""
        f = self.funcs[fid]
        if fid in self.logic_by_fid: return self.call_logic(fid, args, st)
        c = self.contracts.get(fid)
        if c is not None and not (self.verifying == fid and not self.frames):
            if not (self.no_contract_for and fid in self.no_contract_for):
                if c in self.assumed: self.assumptions.add("contract assumed in this unit: " + f["qn"])
                else: self.used_contracts.add(fid)
                cargs = ([this] if this is not None and self.funcs[c].get("selfparam") else []) + list(args)
                return self.run_body(c, None, cargs, st)
        if "body" not in f:
            if f.get("ctor") or f.get("defaulted"): return None
            self.unsup("no body: " + f["qn"])
        self.inlined.add(fid)
        return self.run_body(fid, this, args, st)

    no_contract_for = None

    def run_body(self, fid, this, args, st):
        f = self.funcs[fid]
        if len(self.frames) > 60: self.unsup("call depth (recursion without contract?) " + f["qn"])
        if sum(1 for x in self.frames if x.fn == fid) > 2: self.unsup("recursion without contract: " + f["qn"])
        fr = Frame(fid, this)
        for p, a in zip(f["ps"], args):
            key = (fr.id, p["id"])
            self.vartype[key] = p["t"]
            if self.types[p["t"]]["k"] in ("lref", "rref"):
                st.env[key] = RefBind(a if isinstance(a, LVal) else self.temp(st, a))
            else:
                st.env[key] = self.rv(a, st)
        if len(args) < len(f["ps"]): self.unsup("missing arguments for " + f["qn"])
        line = self.lineno
        self.frames.append(fr)
        try:
            for i in f.get("inits", []):
                if "f" in i:
                    ft = None
                    lv = self.fieldlv(this, i["cls"] + "." + i["f"], None)
                    tt = self.field_type(self.types_by_rec(i["cls"]), i["f"])
                    if tt is not None: lv.ty = tt
                    if lv.root[0] == "h" and tt is not None: self.heapsort.setdefault(lv.root[1], self.sort(tt))
                    if i["e"]["k"] == "Ctor" and tt is not None and self.user_rec(tt) is not None and lv.root[0] != "h":
                        self.write(st, lv, self.zero(tt))
                        self.models.construct(self, i["e"], st, lv)
                    else:
                        v = self.ev_init(i["e"], tt if tt is not None else i["e"]["t"], st)
                        if isinstance(v, RefBind):
                            v = v.lv.root[1] if v.lv.root[0] == "o" and not v.lv.path else PtrTo(v.lv)
                        self.write(st, lv, v)
                elif "base" in i:
                    if i["e"]["k"] == "Ctor" and self.user_rec(i["base"]) is not None:
                        self.models.construct(self, i["e"], st, this, base=True)
                elif i.get("deleg"):
                    self.models.construct(self, i["e"], st, this)
            fl = self.ex(f["body"], st.copy())
        finally:
            self.frames.pop()
        self.lineno = line
        outs = list(fl.ret)
        if fl.normal is not None and not fl.normal.dead(): outs.append((fl.normal, None))
        outs = [(s, v) for s, v in outs if not s.dead()]
        if not outs:
            st.assume(FALSE)
            return self.dummy(f["rt"])
        ms, mv = outs[0]
        for s, v in outs[1:]:
            ms2, sel = self.merge(ms, s)
            if v is None or mv is None: mv = mv if v is None else v
            elif isinstance(mv, LVal) and isinstance(v, LVal):
                if not mv.same(v):
                    if mv.root[0] == "o" and v.root[0] == "o" and not mv.path and not v.path:
                        mv = LVal(("o", Ite(sel, mv.root[1], v.root[1]), mv.root[2]))
                    else:
                        mv = self.merge_val(sel, self.read(ms, mv), self.read(s, v))
                        if isinstance(mv, Poison): self.unsup(mv.why)
            else:
                if isinstance(mv, LVal): mv = self.read(ms, mv)
                if isinstance(v, LVal): v = self.read(s, v)
                mv = self.merge_val(sel, mv, v)
                if isinstance(mv, Poison): self.unsup(mv.why)
            ms = ms2
        st.env, st.heap, st.pc, st.nalloc = ms.env, ms.heap, ms.pc, ms.nalloc
        return mv

    def types_by_rec(self, name):
        r = self.recbyname.get(name)
        return self.recs[r]["ty"] if r is not None else -1

    def dummy(self, ty):
        t = self.types[ty]
        if t["k"] == "void": return None
        try: return self.sym("dead", ty)
        except Unsupported: return Poison("value on a dead path")

    # ---- logic functions
    def register_logic(self, fid):
        f = self.funcs[fid]
        if fid in self.logic_by_fid: return
        L = {"fid": fid, "formals": [], "heap": [], "body": None, "busy": False}
        for p in f["ps"]:
            i = self.strip(p["t"])
            L["formals"].append(z3.Const("L%d_%s" % (fid, p["n"] or "p%d" % p["id"]), self.param_sort(i)))
        L["ret"] = self.sort(f["rt"])
        self.logic_by_fid[fid] = L

    def by_identity(self, i):
        """reference parameters of this class are passed as object identities"""
        i = self.strip(i)
        t = self.types[i]
        if t["k"] != "rec": return False
        if "r" in t:
            rec = self.recs[t["r"]]
            return rec["poly"] or rec["n"] in self.opts.get("identity", ())
        n = t["n"]
        return (n.startswith("clang::") and n not in self.opts.get("values", ()) and self.clang_node(n))

    CLANG_VALUES = {"clang::SourceLocation", "clang::SourceRange", "clang::QualType", "clang::FileID", "clang::PresumedLoc",
                    "clang::DeclarationName", "clang::Selector", "clang::FullSourceLoc", "clang::CharSourceRange", "clang::TypeLoc",
                    "clang::DeclGroupRef", "clang::DynTypedNode", "clang::ParentMapContext", "clang::APValue",
                    "clang::PrintingPolicy", "clang::Expr::EvalResult", "clang::DynTypedNodeList", "clang::Qualifiers"}

    def clang_node(self, n):
        if n in self.CLANG_VALUES: return False
        b = n[7:]
        if b in self.kindr: return True
        return b in ("ASTContext", "SourceManager", "TranslationUnitDecl", "DeclContext", "LangOptions", "Diagnostic",
                     "DiagnosticsEngine", "IdentifierInfo", "CXXBaseSpecifier", "Type", "CXXCtorInitializer", "RawComment",
                     "CompilerInstance", "CompilerInvocation")

    def param_sort(self, i):
        return z3.IntSort() if self.by_identity(i) else self.sort(i)

    def finalize_logic(self):
        """compute bodies of logic functions, with the heap fields each one reads"""
        for fid, L in self.logic_by_fid.items(): L["heap"] = []
        for it in range(6):
            changed = False
            for fid, L in self.logic_by_fid.items():
                L["decl"] = None
            for fid, L in self.logic_by_fid.items():
                hr = self.eval_logic(fid)
                hr = sorted(set(hr) | set(L["heap"]))
                if hr != L["heap"]:
                    L["heap"] = hr; changed = True
            if not changed: break
        self.logic = {}
        for fid, L in self.logic_by_fid.items():
            self.logic[self.logic_decl(fid).name()] = L

    def logic_decl(self, fid):
        L = self.logic_by_fid[fid]
        if L.get("decl") is None:
            f = self.funcs[fid]
            srt = [x.sort() for x in L["formals"]] + [z3.ArraySort(z3.IntSort(), self.heapsort[h]) for h in L["heap"]]
            n = "F%d_%s" % (fid, mangle(f["qn"])) + ("_h%d" % len(L["heap"]) if L["heap"] else "")
            L["decl"] = z3.Function(n, *(srt + [L["ret"]]))
            self.ufret[n] = f["rt"]
        return L["decl"]

    def eval_logic(self, fid):
        f = self.funcs[fid]
        L = self.logic_by_fid[fid]
        st = State()
        save = (self.frames, self.throws, self.hreads, self.obls, self.heapinit, self.wlog, self.accessed, self.in_real)
        self.frames, self.throws, self.hreads, self.obls, self.wlog, self.accessed = [], [[]], set(), [], None, None
        self.heapinit = {}
        self.in_real = False
        for h in L["heap"]:
            self.heapinit[h] = z3.Const("LH%d_%s" % (fid, mangle(h)), z3.ArraySort(z3.IntSort(), self.heapsort[h]))
        try:
            args = []
            for p, c in zip(f["ps"], L["formals"]):
                i = self.strip(p["t"])
                if self.by_identity(i) and self.types[p["t"]]["k"] in ("lref", "rref"):
                    args.append(LVal(("o", c, self.canon_cls(i))))
                else: args.append(self.temp(st, c) if self.types[p["t"]]["k"] in ("lref", "rref") else c)
            v = self.run_body(fid, None, args, st)
            v = self.term(self.rv(v, st)) if v is not None else None
            L["body"] = v
            L["hformals"] = [self.heapinit[h] for h in L["heap"]] if all(h in self.heapinit for h in L["heap"]) else []
            return set(self.hreads)
        finally:
            self.frames, self.throws, self.hreads, self.obls, self.heapinit, self.wlog, self.accessed, self.in_real = save

    def call_logic(self, fid, args, st):
        L = self.logic_by_fid[fid]
        f = self.funcs[fid]
        ts = []
        for p, a in zip(f["ps"], args):
            if isinstance(a, LVal):
                a = self.resolve(st, a)
                if self.by_identity(p["t"]):
                    if a.root[0] == "o" and not a.path: ts.append(a.root[1]); continue
                    self.unsup("identity argument")
                a = self.read(st, a)
            ts.append(self.term(a))
        hs = []
        for h in L["heap"]:
            if self.hreads is not None: self.hreads.add(h)
            a = st.heap.get(h)
            if a is None: a = self.heap0(h)
            hs.append(a)
        d = self.logic_decl(fid)
        if self.logic_calls is not None: self.logic_calls.append((fid, ts, hs))
        return d(*(ts + hs))

    logic_calls = None

    # ------------------------------------------------------------ statements
    def ex(self, s, st):
        fl = Flow()
        if s is None or st is None or st.dead():
            fl.normal = st
            return fl
        if s.get("l"): self.lineno = s["l"]
        m = getattr(self, "ex_" + s["k"], None)
        if m is None: self.unsup("statement " + s["k"] + " " + str(s.get("cls", "")))
        return m(s, st)

    def ex_Null(self, s, st): return Flow(st)

    def ex_Expr(self, s, st):
        self.ev(s["e"], st)
        return Flow(None if st.dead() else st)

    def ex_Block(self, s, st):
        fl = Flow(st)
        for x in s["b"]:
            if fl.normal is None or fl.normal.dead():
                fl.normal = None
                break
            f2 = self.ex(x, fl.normal)
            fl.normal = f2.normal
            fl.brk += f2.brk; fl.cont += f2.cont; fl.ret += f2.ret
        return fl

    def declare(self, d, st):
        if "v" not in d: return
        key = self.varkey(d["v"])
        self.vartype[key] = d["t"]
        if self.wlog is not None: self.wlog.add(("v", key))
        t = self.types[d["t"]]
        if "init" in d:
            if d["init"]["k"] == "Ctor" and self.user_rec(d["t"]) is not None and t["k"] == "rec":
                st.env[key] = self.zero(d["t"])
                v = self.models.construct(self, d["init"], st, LVal(("v", key)))
                if v is not None: st.env[key] = v
            else:
                st.env[key] = self.ev_init(d["init"], d["t"], st)
        else:
            try: st.env[key] = self.sym("uninit", d["t"]) if t["k"] != "rec" else self.zero(d["t"])
            except Unsupported: st.env[key] = Poison("uninitialised")
        for b in d.get("bind", []):
            bk = self.varkey(b["v"])
            if "e" in b: st.env[bk] = RefBind(self.resolve(st, self.lv(b["e"], st)))
            else: self.unsup("tuple-like structured binding")

    def ex_Decl(self, s, st):
        for d in s["d"]: self.declare(d, st)
        return Flow(None if st.dead() else st)

    def ex_If(self, s, st):
        if s["init"] is not None: st = self.ex(s["init"], st).normal
        if s["cv"] is not None: st = self.ex(s["cv"], st).normal
        c = self.to_bool(self.ev(s["c"], st))
        if st.dead(): return Flow(None)
        A, B = st.copy(), st
        A.assume(c); B.assume(Not(c))
        fa = self.ex(s["th"], A) if not A.dead() else Flow(None)
        fb = (self.ex(s["el"], B) if s["el"] is not None else Flow(B)) if not B.dead() else Flow(None)
        fl = Flow()
        fl.brk, fl.cont, fl.ret = fa.brk + fb.brk, fa.cont + fb.cont, fa.ret + fb.ret
        if fa.normal is not None and fb.normal is not None: fl.normal = self.merge(fa.normal, fb.normal)[0]
        else: fl.normal = fa.normal if fa.normal is not None else fb.normal
        return fl

    def ex_Return(self, s, st):
        fl = Flow()
        v = None
        if s["e"] is not None:
            rt = self.types[self.funcs[self.frames[-1].fn]["rt"]] if self.frames[-1].fn is not None else None
            if rt is not None and rt["k"] in ("lref",):
                v = self.resolve(st, self.lv(s["e"], st))
            else:
                v = self.ev(s["e"], st)
                v = self.rv(v, st)
        if not st.dead(): fl.ret.append((st, v))
        return fl

    def ex_Break(self, s, st):
        fl = Flow(); fl.brk.append(st); return fl

    def ex_Continue(self, s, st):
        fl = Flow(); fl.cont.append(st); return fl

    def ex_Switch(self, s, st):
        if s["cv"] is not None: st = self.ex(s["cv"], st).normal
        c = self.toint(self.ev(s["c"], st))
        stmts = s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]
        items = []
        def flat(x):
            while x is not None and x["k"] in ("Case", "Default"):
                items.append(x)
                x = x["b"]
            items.append(x)
        for x in stmts: flat(x)
        cases = []
        for x in items:
            if x is not None and x["k"] == "Case":
                v = self.toint(self.ev(x["c"], st))
                if x["rhs"] is not None: cases.append(And(Le(v, c), Le(c, self.toint(self.ev(x["rhs"], st)))))
                else: cases.append(Eq(c, v))
        nodef = And(*[Not(x) for x in cases])
        cur, fl, k = None, Flow(), 0
        hasdef = False
        for x in items:
            if x is None: continue
            if x["k"] == "Case":
                a = st.copy(); a.assume(cases[k]); k += 1
                if not a.dead(): cur = a if cur is None else self.merge(a, cur)[0]
            elif x["k"] == "Default":
                hasdef = True
                a = st.copy(); a.assume(nodef)
                if not a.dead(): cur = a if cur is None else self.merge(a, cur)[0]
            elif cur is not None:
                f2 = self.ex(x, cur)
                cur = f2.normal
                fl.brk += f2.brk; fl.cont += f2.cont; fl.ret += f2.ret
        if not hasdef:
            a = st.copy(); a.assume(nodef)
            if not a.dead(): cur = a if cur is None else self.merge(a, cur)[0]
        fl.normal = self.merge_all([cur] + fl.brk)
        fl.brk = []
        return fl

    def ex_Case(self, s, st): self.unsup("case outside switch block")
    ex_Default = ex_Case

    def ex_Try(self, s, st):
        self.throws.append([])
        fl = self.ex(s["b"], st)
        th = self.throws.pop()
        for (ts, v, tn) in th:
            handled = False
            for h in s["h"]:
                if "t" not in h or tn in self.types[self.strip(h["t"])]["s"] or self.types[self.strip(h["t"])]["s"] in self.exc_bases(tn):
                    if "v" in h: ts.env[self.varkey(h["v"])] = v if v is not None else Poison("exception object")
                    f2 = self.ex(h["b"], ts)
                    fl.brk += f2.brk; fl.cont += f2.cont; fl.ret += f2.ret
                    if f2.normal is not None:
                        fl.normal = f2.normal if fl.normal is None else self.merge(fl.normal, f2.normal)[0]
                    handled = True
                    break
            if not handled: self.throws[-1].append((ts, v, tn))
        return fl

    def exc_bases(self, tn): return ["std::exception", "const std::exception"] if "std::" in tn or "oclint" in tn else []

    # ---- loops
    def ex_For(self, s, st):
        if s["init"] is not None: st = self.ex(s["init"], st).normal
        def cond(x):
            if s["cv"] is not None: self.ex(s["cv"], x)
            return TRUE if s["c"] is None else self.to_bool(self.ev(s["c"], x))
        return self.loop(st, cond, lambda x: self.ex(s["b"], x), (lambda x: self.ev(s["inc"], x)) if s["inc"] is not None else None, s)

    def ex_While(self, s, st):
        def cond(x):
            if s["cv"] is not None: self.ex(s["cv"], x)
            return self.to_bool(self.ev(s["c"], x))
        return self.loop(st, cond, lambda x: self.ex(s["b"], x), None, s)

    def ex_Do(self, s, st):
        # first iteration, then a while loop
        f0 = self.ex(s["b"], st)
        n = self.merge_all([f0.normal] + f0.cont)
        fl = Flow()
        fl.ret += f0.ret
        if n is not None:
            f1 = self.loop(n, lambda x: self.to_bool(self.ev(s["c"], x)), lambda x: self.ex(s["b"], x), None, s)
            fl.normal = f1.normal
            fl.ret += f1.ret
        fl.normal = self.merge_all([fl.normal] + f0.brk)
        return fl

    def ex_RangeFor(self, s, st):
        if s.get("init") is not None: st = self.ex(s["init"], st).normal
        rt = s["range"]["t"]
        rn = self.recname(rt)
        if self.is_glvalue(s["range"]): c = self.resolve(st, self.lv(s["range"], st))
        else: c = self.temp(st, self.rv(self.ev(s["range"], st), st))
        v0 = self.read(st, c)
        if rn in MAPS or rn in SETS:
            m = self.term(v0)
            seq = self.keys_of(m)
            return self.iterate(st, seq, s, (rn in MAPS, c))
        if isinstance(v0, Rec) or (isinstance(v0, z3.ExprRef) and not isinstance(v0.sort(), z3.SeqSortRef) and not z3.is_string(v0)):
            rec = self.user_rec(rt)
            seq = self.models.range_of(self, v0, c, rt, st)
            if seq is None: self.unsup("range-for over " + self.types[self.strip(rt)]["s"])
            c = self.temp(st, seq)
        return self.iterate(st, None, s, None, c)

    def keys_of(self, m):
        mem = self.acc(m, 0)
        K = mem.sort().domain()
        return self.uf("sorted_keys_" + K.sexpr(), [mem.sort()], z3.SeqSort(K))(mem)

    def iterate(self, st, seq, s, mp, c=None):
        self.fresh_n += 1
        ik = ("idx", self.fresh_n)
        st.env[ik] = I0
        vd = s["var"]
        key = self.varkey(vd["v"])
        self.vartype[key] = vd["t"]
        byref = self.types[vd["t"]]["k"] in ("lref", "rref")
        if c is None: c = self.temp(st, seq)

        def cond(x): return Lt(x.env[ik], self.cont_len(x, c))

        def body(x):
            if mp is not None and mp[0]:
                k = self.nth(self.cont_val(x, c), x.env[ik])
                mlv = mp[1]
                val = self.sel(self.acc(self.term(self.read(x, mlv)), 1), k)
                x.env[key] = Rec(("pair",), {"first": k, "second": val})
                if byref and not self.types[self.strip(vd["t"])].get("c"): self.assumptions.add("map values are not changed through the iteration variable")
            else:
                el = c.sub(("i", x.env[ik]))
                if byref: x.env[key] = RefBind(el)
                else: x.env[key] = self.read(x, el)
                et = self.elem_type(s["range"]["t"])
                if et is not None:
                    v = self.read(x, el)
                    if isinstance(v, z3.ExprRef): self.add_typefact(v, et)
            if self.wlog is not None: self.wlog.add(("v", key))
            for b in vd.get("bind", []):
                x.env[self.varkey(b["v"])] = RefBind(LVal(("v", key)).sub(("f", "first" if b is vd["bind"][0] else "second")))
            return self.ex(s["b"], x)

        def inc(x):
            if self.wlog is not None: self.wlog.add(("v", ik))
            x.env[ik] = Add(x.env[ik], I1)
        return self.loop(st, cond, body, inc, s, idx=ik)

    def loop(self, st, cond, body, inc, s, idx=None):
        import loops
        return loops.run(self, st, cond, body, inc, s, idx)
