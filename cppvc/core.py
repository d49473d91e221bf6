"""cppvc core: values, sorts, states and smart term constructors.

Values of the symbolic executor are z3 terms, or structured Python values (records under
construction, iterators, closures, pointers to locals) that are turned into terms only when
they are stored inside a container or compared.
"""
import z3


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- smart constructors
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def is_true(t): return z3.is_true(t)
def is_false(t): return z3.is_false(t)


def Not(a):
    if is_true(a): return FALSE
    if is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if is_false(x): return FALSE
        if is_true(x): continue
        if any(x.eq(y) for y in out): continue
        out.append(x)
    for i, x in enumerate(out):
        nx = Not(x)
        for y in out[i + 1:]:
            if y.eq(nx): return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if is_true(x): return TRUE
        if is_false(x): continue
        if any(x.eq(y) for y in out): continue
        out.append(x)
    for i, x in enumerate(out):
        nx = Not(x)
        for y in out[i + 1:]:
            if y.eq(nx): return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def Implies(a, b): return Or(Not(a), b)


def Ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    if a.sort() == z3.BoolSort():
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return Not(c)
        if is_false(b): return And(c, a)
        if is_true(a): return Or(c, b)
        if is_true(b): return Or(Not(c), a)
        if is_false(a): return And(Not(c), b)
    return z3.If(c, a, b)


def isval(t): return z3.is_int_value(t)


def Eq(a, b):
    if a.eq(b): return TRUE
    if isval(a) and isval(b): return z3.BoolVal(a.as_long() == b.as_long())
    if z3.is_string_value(a) and z3.is_string_value(b):
        return z3.BoolVal(a.as_string() == b.as_string())
    if a.sort() == z3.BoolSort():
        if is_true(a): return b
        if is_true(b): return a
        if is_false(a): return Not(b)
        if is_false(b): return Not(a)
    if a.sort() != b.sort():
        raise Unsupported("comparison of %s with %s" % (a.sort(), b.sort()))
    # numeral pushed into a two-way choice between numerals
    for x, y in ((a, b), (b, a)):
        if isval(y) and z3.is_app_of(x, z3.Z3_OP_ITE) and (isval(x.arg(1)) or isval(x.arg(2))):
            return Ite(x.arg(0), Eq(x.arg(1), y), Eq(x.arg(2), y))
    return a == b


def Add(a, b):
    if isval(a) and isval(b): return z3.IntVal(a.as_long() + b.as_long())
    if isval(a) and a.as_long() == 0: return b
    if isval(b) and b.as_long() == 0: return a
    if isval(b) and z3.is_add(a) and a.num_args() == 2 and isval(a.arg(1)):
        return Add(a.arg(0), z3.IntVal(a.arg(1).as_long() + b.as_long()))
    if isval(a) and not isval(b): return Add(b, a)
    return a + b


def Sub(a, b):
    if a.eq(b): return z3.IntVal(0)
    if isval(b): return Add(a, z3.IntVal(-b.as_long()))
    return a - b


def Lt(a, b):
    if isval(a) and isval(b): return z3.BoolVal(a.as_long() < b.as_long())
    return a < b


def Le(a, b):
    if isval(a) and isval(b): return z3.BoolVal(a.as_long() <= b.as_long())
    return a <= b


def _parts(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        r = []
        for c in t.children(): r += _parts(c)
        return r
    if z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY): return []
    if z3.is_string_value(t) and t.as_string() == "": return []
    return [t]


def Cat(*ts):
    """Concatenation of strings or sequences in a normal form (flat, literals merged)."""
    sort = ts[0].sort()
    parts = []
    for t in ts:
        for p in _parts(t):
            if parts and z3.is_string_value(p) and z3.is_string_value(parts[-1]):
                parts[-1] = StrVal(strlit(parts[-1]) + strlit(p))
            else:
                parts.append(p)
    if not parts: return z3.Empty(sort)
    if len(parts) == 1: return parts[0]
    return z3.Concat(*parts)


def strlit(t):
    """Python string of character codes of a z3 string literal."""
    s = t.as_string()
    # z3 escapes non-printables as \u{..}
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def StrVal(s):
    enc = "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)
    return z3.StringVal(enc)


def Len(t):
    ps = _parts(t)
    n, rest = 0, []
    for p in ps:
        if z3.is_string_value(p): n += len(strlit(p))
        elif z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT): n += 1
        else: rest.append(z3.Length(p))
    r = None
    for x in rest: r = x if r is None else r + x
    if r is None: return z3.IntVal(n)
    return Add(r, z3.IntVal(n)) if n else r


def Nth(s, i):
    ps = _parts(s)
    if isval(i):
        k = i.as_long()
        for p in ps:
            if z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT):
                if k == 0: return p.arg(0)
                k -= 1
            else:
                break
        else:
            raise Unsupported("constant index out of range")
    if z3.is_string(s):
        if z3.is_string_value(s) and isval(i): return z3.IntVal(ord(strlit(s)[i.as_long()]))
        return z3.StrToCode(z3.SubString(s, i, 1))
    return s[i]


# ----------------------------------------------------------------- structured values
class Rec:
    """A record value under construction: class name -> fields."""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f): self.cls, self.f = cls, f
    def __repr__(self): return "Rec(%s,%s)" % (self.cls, self.f)


class Closure:
    __slots__ = ("rec", "caps", "frame")

    def __init__(self, rec, caps, frame): self.rec, self.caps, self.frame = rec, caps, frame


class FnRef:
    __slots__ = ("fid",)

    def __init__(self, fid): self.fid = fid


class PtrTo:
    __slots__ = ("lv",)

    def __init__(self, lv): self.lv = lv


class Iter:
    """Iterator into a sequence: container is an LVal or a term; rev for reverse iterators."""
    __slots__ = ("c", "i", "rev", "back", "et")

    def __init__(self, c, i, rev=False, back=False, et=None):
        self.c, self.i, self.rev, self.back, self.et = c, i, rev, back, et


class MapIter:
    __slots__ = ("c", "key", "found")

    def __init__(self, c, key, found): self.c, self.key, self.found = c, key, found


class RefBind:
    __slots__ = ("lv",)

    def __init__(self, lv): self.lv = lv


class Poison:
    def __init__(self, why): self.why = why


class LVal:
    """A place: root ('v',key) | ('h',field,ref) | ('o',ref,cls), then a path."""
    __slots__ = ("root", "path", "ty")

    def __init__(self, root, path=(), ty=None): self.root, self.path, self.ty = root, tuple(path), ty
    def sub(self, p, ty=None): return LVal(self.root, self.path + (p,), ty)
    def __repr__(self): return "LVal(%s,%s)" % (self.root, self.path)

    def same(self, o):
        if self.root[0] != o.root[0] or len(self.path) != len(o.path): return False
        def eq(a, b):
            if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
                return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
            return a == b
        return all(eq(a, b) for a, b in zip(self.root[1:], o.root[1:])) and \
            all(p[0] == q[0] and eq(p[1], q[1]) for p, q in zip(self.path, o.path))


class State:
    __slots__ = ("env", "heap", "pc", "nalloc")

    def __init__(self, env=None, heap=None, pc=(), nalloc=0):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.nalloc = nalloc

    def copy(self): return State(dict(self.env), dict(self.heap), self.pc, self.nalloc)
    def cond(self): return And(*self.pc)

    def assume(self, c):
        if not is_true(c) and not any(c.eq(x) for x in self.pc):
            self.pc = self.pc + (c,)

    def dead(self):
        for c in self.pc:
            if is_false(c): return True
        last = self.pc[-1] if self.pc else None
        if last is not None:
            n = Not(last)
            for c in self.pc[:-1]:
                if c.eq(n): return True
        return False
