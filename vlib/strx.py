"""Path-wise symbolic execution of C that handles strings: characters are symbolic integers, lengths are
concrete per path, and the libc string, number and file functions are modelled by their contracts.
Every symbolic branch forks; z3 decides which sides are feasible."""
from vlib import cexec, dag, loops
from vlib.cexec import CHAR, DBL, INT, LONG, Arr, ExecError, P, S, T
from vlib.core import STATS, Inconclusive
from vlib.dag import C, V, add, and_, eq, le, lt, not_, or_

z3 = dag.z3
SIZE = {"char": 1, "_Bool": 1, "short": 2, "int": 4, "float": 4, "double": 8, "long": 8, "long double": 16}


class Exit(Exception):
    """exit() was called."""

    def __init__(self, code):
        super().__init__()
        self.code = code


def between(c, a, b):
    return and_(le(C(a), c), le(c, C(b)))


CLASS = {
    "isspace": lambda c: or_(eq(c, C(32)), between(c, 9, 13)),
    "isblank": lambda c: or_(eq(c, C(32)), eq(c, C(9))),
    "isdigit": lambda c: between(c, 48, 57),
    "isalpha": lambda c: or_(between(c, 65, 90), between(c, 97, 122)),
    "isupper": lambda c: between(c, 65, 90),
    "islower": lambda c: between(c, 97, 122),
    "isalnum": lambda c: or_(between(c, 48, 57), or_(between(c, 65, 90), between(c, 97, 122))),
}


class PathExec(cexec.Exec):
    """Fresh state per path: call reset() before every run."""

    def __init__(self, src, incdirs=()):
        super().__init__(src, (), incdirs)
        for k, m in list(globals().items()):
            if k.startswith("c_"):
                self.stubs[k[2:]] = m
        for k in CLASS:
            self.stubs[k] = lambda ex, n, a: ex.b2i(CLASS[n](a[0].n))
        self.stubs["__errno_location"] = lambda ex, n, a: P(ex.errno)
        self.reset()

    def reset(self):
        self.heap = []
        self.steps = 0
        self.globals = {}
        self.scopes = []
        self._load()
        self.statics = {}
        self.tok = None
        self.errno = cexec.Cell(INT, S(INT, C(0)), "errno")
        for g in ("errno", "stderr", "stdout", "stdin"):
            self.globals[g] = self.errno if g == "errno" else cexec.Cell(T("ptr", elem=cexec.VOID), P(Arr(self, CHAR, g, 1)), g)
        self.numbers = {}  # (kind, text) -> outcome
        self.fs = {}  # name -> list of lines
        self.opened = []
        self.exact = False  # numbers in concrete texts are evaluated instead of being left open

    # unsized global tables get the size of their initialiser
    def initialise(self, o, init):
        if isinstance(o, Arr) and isinstance(init, cexec.c_ast.InitList) and o.n is None:
            o.n = len(init.exprs)
        if isinstance(o, Arr) and isinstance(init, cexec.c_ast.Constant) and init.type == "string":
            p = self.eval(init)
            if o.n is None:
                o.n = p.obj.n
            for i in range(o.n):
                o.conc[i] = p.obj.conc[i] if i < p.obj.n else S(CHAR, C(0))
            return
        super().initialise(o, init)

    def st_Decl(self, s):
        if "static" in (s.storage or []):
            if id(s) not in self.statics:
                super().st_Decl(s)
                self.statics[id(s)] = self.scopes[-1][s.name]
            self.scopes[-1][s.name] = self.statics[id(s)]
            return
        super().st_Decl(s)

    def sizeof(self, t):
        if t.k in ("int", "flt"):
            n = t.name or "int"
            for k in ("char", "_Bool", "short", "long double", "double", "float", "long"):
                if k in n:
                    return SIZE[k]
            return 4
        if t.k == "ptr":
            return 8
        if t.k == "arr":
            return self.sizeof(t.elem) * int(t.n.a[0] if isinstance(t.n, dag.N) else t.n)
        if t.k == "struct":
            off, al = 0, 1
            for f in t.fields.values():
                b = f
                while b.k == "arr":
                    b = b.elem
                a = 8 if b.k in ("ptr", "struct") else self.sizeof(b)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(f)
            return (off + al - 1) // al * al
        raise Inconclusive(f"sizeof {t}")

    def ex_UnaryOp(self, e):
        if e.op == "sizeof":
            if isinstance(e.expr, cexec.c_ast.Typename):
                return S(T("int", "unsigned long"), C(self.sizeof(self.ty(e.expr))))
            o = self.lval(e.expr) if type(e.expr).__name__ in ("ID", "StructRef", "ArrayRef") else self.eval(e.expr)
            if isinstance(o, Arr):
                return S(T("int", "unsigned long"), C(self.sizeof(o.elem) * o.n))
            t = o.arr.elem if isinstance(o, cexec.ElemRef) else o.t
            return S(T("int", "unsigned long"), C(self.sizeof(t)))
        return super().ex_UnaryOp(e)

    def ex_BinaryOp(self, e):
        if e.op in ("&&", "||"):
            a = self.truth(self.eval(e.left))
            if a == (e.op == "||"):
                return S(INT, C(1 if a else 0))
            return S(INT, C(1 if self.truth(self.eval(e.right)) else 0))
        return super().ex_BinaryOp(e)

    def ex_TernaryOp(self, e):
        return self.eval(e.iftrue if self.truth(self.eval(e.cond)) else e.iffalse)

    def binop(self, op, a, b):
        if isinstance(a, S) and isinstance(b, S) and a.t.k == b.t.k == "int" and op in ("<", "<=", ">", ">=", "==", "!=", "+", "-", "*", "/"):
            t = self.arith(a.t, b.t)
            if "unsigned" in (t.name or "") and "char" not in t.name:
                m = 1 << (64 if "long" in t.name else 32)
                w = lambda x: S(t, C(int(x.n.a[0]) % m)) if dag.isc(x.n) else x
                r = super().binop(op, w(a), w(b))
                return w(r) if op in "+-*/" else r
        return super().binop(op, a, b)

    def convert(self, v, t):
        if isinstance(v, S) and t.k == "int" and v.t.k == "int":
            n = t.name or ""
            if dag.isc(v.n) and "unsigned" in n:
                bits = 8 if "char" in n else 16 if "short" in n else 64 if "long" in n else 32
                return S(t, C(int(v.n.a[0]) % (1 << bits)))
            if not dag.isc(v.n) and "unsigned" in n and "char" in n:
                return S(t, v.n if not self.decide(lt(v.n, C(0))) else add(v.n, C(256)))
            if not dag.isc(v.n) and n in ("int", "signed int") and "long" in (v.t.name or ""):
                if not self.decide(between(v.n, -(2**31), 2**31 - 1)):
                    return S(t, dag.fn("wrap32", v.n))
                return S(t, v.n)
        return super().convert(v, t)


# ------------------------------------------------------------------ strings
def at(ex, p, k=0):
    return ex.read(ex.elem_obj(p.obj, add(p.off, C(k)))).n


def is_(ex, c, v):
    return ex.truth(ex.b2i(eq(c, v if isinstance(v, dag.N) else C(v))))


def ptr(a):
    if isinstance(a, Arr):
        a = P(a)
    if not isinstance(a, P) or a.obj is None:
        raise ExecError("NULL passed to a string function")
    return a


def text(ex, p, limit=None):
    """Characters of the string at p (without the terminator); reading past its object is an error."""
    p = ptr(p)
    out = []
    k = 0
    while limit is None or k < limit:
        c = at(ex, p, k)
        if is_(ex, c, 0):
            break
        out.append(c)
        k += 1
    return out


def put(ex, p, k, c):
    ex.write(ex.elem_obj(p.obj, add(p.off, C(k))), S(CHAR, c))


NUL = S(CHAR, C(0))


def fill(ex, d, cs):
    """Write consecutive characters (bounds already checked or checked here)."""
    o, base = d.obj, num(S(LONG, d.off))
    if o.stores or o.freed or not isinstance(o.n, int) or base < 0 or base + len(cs) > o.n:
        for k, c in enumerate(cs):
            put(ex, d, k, c)
        return
    zero = C(0)
    for k, c in enumerate(cs, base):
        o.conc[k] = NUL if c is zero else S(CHAR, c)


def num(a):
    if not dag.isc(a.n):
        raise Inconclusive("symbolic length")
    return int(a.n.a[0])


def c_strlen(ex, _n, a):
    return S(T("int", "unsigned long"), C(len(text(ex, a[0]))))


def c_strnlen(ex, _n, a):
    return S(T("int", "unsigned long"), C(len(text(ex, a[0], num(a[1])))))


def c_strchr(ex, _n, a):
    p = ptr(a[0])
    k = 0
    while True:
        c = at(ex, p, k)
        if is_(ex, c, a[1].n):
            return P(p.obj, add(p.off, C(k)), p.t)
        if is_(ex, c, 0):
            return P(None)
        k += 1


def c_strrchr(ex, _n, a):
    p = ptr(a[0])
    t = text(ex, p)
    for k in range(len(t) - 1, -1, -1):
        if is_(ex, t[k], a[1].n):
            return P(p.obj, add(p.off, C(k)), p.t)
    return P(None)


def c_strncpy(ex, _n, a):
    d, s, n = ptr(a[0]), ptr(a[1]), num(a[2])
    room = d.obj.n - num(S(LONG, d.off)) if isinstance(d.obj.n, int) else n
    if n > room:
        raise ExecError(f"strncpy of {n} bytes into {room} bytes of {d.obj.name}")
    t = text(ex, s, n)
    fill(ex, d, t + [C(0)] * (n - len(t)))
    return ptr(a[0])


def c_snprintf(ex, _n, a):
    """Only formats without conversions, or a plain %s."""
    d, n, f = ptr(a[0]), num(a[1]), text(ex, a[2])
    if any(not dag.isc(c) for c in f):
        raise Inconclusive("symbolic format")
    if _tokname(f) == "%s":
        f = text(ex, a[3])
    elif C(37) in f:
        t = _tokname(f)
        if "%" in t.replace("%%", ""):
            raise Inconclusive("format " + t)
        f = [C(ord(c)) for c in t.replace("%%", "%")]
    if n > 0:
        fill(ex, d, f[: n - 1] + [C(0)])
    return S(INT, C(len(f)))


def c_strcpy(ex, _n, a):
    fill(ex, ptr(a[0]), text(ex, a[1]) + [C(0)])
    return ptr(a[0])


def c_strncat(ex, _n, a):
    d, t = ptr(a[0]), text(ex, a[1], num(a[2]))
    o = len(text(ex, d))
    for k, c in enumerate(t + [C(0)]):
        put(ex, d, o + k, c)
    return ptr(a[0])


def c_memcpy(ex, _n, a):
    d, s = ptr(a[0]), ptr(a[1])
    v = [ex.read(ex.elem_obj(s.obj, add(s.off, C(k)))) for k in range(num(a[2]))]
    for k, x in enumerate(v):
        ex.write(ex.elem_obj(d.obj, add(d.off, C(k))), x)
    return ptr(a[0])


c_memmove = c_memcpy


def c_memset(ex, _n, a):
    d = ptr(a[0])
    if d.obj.elem is not None and d.obj.elem.name != "char":
        w = ex.sizeof(d.obj.elem)
        if not (dag.isc(a[1].n) and a[1].n.a[0] == 0):
            raise Inconclusive("memset")
        for k in range(num(a[2]) // w):
            ex.write(ex.elem_obj(d.obj, add(d.off, C(k))), S(INT, C(0)))
        return a[0]
    for k in range(num(a[2])):
        put(ex, d, k, a[1].n)
    return ptr(a[0])


def _cmp(ex, s, t, lower=False):
    for k in range(max(len(s), len(t)) + 1):
        x = s[k] if k < len(s) else C(0)
        y = t[k] if k < len(t) else C(0)
        if lower:
            x, y = tolower(ex, x), tolower(ex, y)
        if not is_(ex, x, y):
            return -1 if ex.truth(ex.b2i(lt(x, y))) else 1
    return 0


def _lazy(ex, a, n=None, lower=False):
    p, q = ptr(a[0]), ptr(a[1])
    k = 0
    while n is None or k < n:
        x, y = at(ex, p, k), at(ex, q, k)
        if lower:
            x, y = tolower(ex, x), tolower(ex, y)
        if not is_(ex, x, y):
            return S(INT, C(-1 if ex.truth(ex.b2i(lt(x, y))) else 1))
        if is_(ex, x, 0):
            break
        k += 1
    return S(INT, C(0))


def c_strcmp(ex, _n, a):
    return _lazy(ex, a)


def c_strncmp(ex, _n, a):
    return _lazy(ex, a, num(a[2]))


def c_strcasecmp(ex, _n, a):
    return _lazy(ex, a, None, True)


def tolower(ex, c):
    if dag.isc(c):
        return C(int(c.a[0]) + 32) if 65 <= c.a[0] <= 90 else c
    return add(c, C(32)) if ex.truth(ex.b2i(between(c, 65, 90))) else c


def c_tolower(ex, _n, a):
    return S(INT, tolower(ex, a[0].n))


def _isin(ex, c, delim):
    return any(is_(ex, c, d) for d in delim)


def c_strspn(ex, _n, a):
    d = text(ex, a[1])
    k = 0
    while not is_(ex, at(ex, ptr(a[0]), k), 0) and _isin(ex, at(ex, ptr(a[0]), k), d):
        k += 1
    return S(T("int", "unsigned long"), C(k))


def c_strcspn(ex, _n, a):
    d = text(ex, a[1])
    k = 0
    while not is_(ex, at(ex, ptr(a[0]), k), 0) and not _isin(ex, at(ex, ptr(a[0]), k), d):
        k += 1
    return S(T("int", "unsigned long"), C(k))


def _strtok(ex, s, delim, save):
    p = s if isinstance(s, P) and s.obj is not None or isinstance(s, Arr) else save
    p = ptr(p)
    d = text(ex, delim)
    k = 0
    while True:
        c = at(ex, p, k)
        if is_(ex, c, 0):
            return P(None), P(p.obj, add(p.off, C(k)), p.t)
        if not _isin(ex, c, d):
            break
        k += 1
    st = P(p.obj, add(p.off, C(k)), T("ptr", elem=CHAR))
    while True:
        k += 1
        c = at(ex, p, k)
        if is_(ex, c, 0):
            return st, P(p.obj, add(p.off, C(k)), p.t)
        if _isin(ex, c, d):
            put(ex, p, k, C(0))
            return st, P(p.obj, add(p.off, C(k + 1)), p.t)


def c_strtok(ex, _n, a):
    r, ex.tok = _strtok(ex, a[0], a[1], ex.tok)
    return r


def c_strtok_r(ex, _n, a):
    sv = ex.read(ex.elem_obj(a[2].obj, a[2].off)) if isinstance(a[0], P) and a[0].obj is None else None
    r, s = _strtok(ex, a[0], a[1], sv)
    ex.write(ex.elem_obj(a[2].obj, a[2].off), s)
    return r


def c_strdup(ex, _n, a):
    t = text(ex, a[0])
    o = Arr(ex, CHAR, "strdup", len(t) + 1)
    for k, c in enumerate(t + [C(0)]):
        o.conc[k] = S(CHAR, c)
    ex.heap.append(o)
    return P(o, dag.ZERO, T("ptr", elem=CHAR))


# ------------------------------------------------------------------ numbers: outcome abstracted per text
def _tokname(t):
    return "".join(chr(int(c.a[0])) if dag.isc(c) else f"<{c.a[0]}>" for c in t)


def exact(kind, s):
    import re

    if kind == "int":
        return dag.Fraction(int(s)) if re.fullmatch(r"[+-]?\d+", s) and abs(int(s)) < 2**63 else None
    try:
        v = float(s)
        return dag.Fraction(v) if abs(v) < 1e300 and "_" not in s else None
    except ValueError:
        return None


def number(ex, kind, t, a, lo, hi):
    """strto*(): for the given text either consumes everything, or stops early, or overflows."""
    key = (kind, _tokname(t))
    if ex.exact:
        return "ok" if exact(kind, key[1]) is not None else "bad"
    nm = f"{kind}:{key[1]}"
    if not t:
        return "bad"
    if key not in ex.numbers:
        if not ex.decide(eq(V("ok:" + nm), C(1))):
            ex.numbers[key] = "bad"
        elif not ex.decide(eq(V("rng:" + nm), C(0))):
            ex.numbers[key] = "range"
        else:
            ex.numbers[key] = "ok"
    return ex.numbers[key]


def _strto(ex, kind, a, rt, lo=None, hi=None):
    p = ptr(a[0])
    t = text(ex, p)
    o = number(ex, kind, t, a, lo, hi)
    nm = f"{kind}:{_tokname(t)}"
    if len(a) > 1 and isinstance(a[1], P) and a[1].obj is not None:
        # stopping early may mean nowhere at all; both leave an unconverted rest
        end = len(t) if o != "bad" else 0
        if o == "bad" and t and ex.decide(eq(V("part:" + nm), C(1))):
            end = 1 if len(t) > 1 else 0
        q = P(p.obj, add(p.off, C(end)), p.t)
        tgt = a[1].obj
        ex.write(tgt if isinstance(tgt, cexec.Cell) else ex.elem_obj(tgt, a[1].off), q)
    if o == "range":
        ex.errno.v = S(INT, ex.globals_const("ERANGE"))
        return S(rt, V("huge:" + nm))
    if o == "bad":
        return S(rt, V("junk:" + nm))
    if ex.exact:
        return S(rt, C(exact(kind, _tokname(t))))
    return S(rt, V("val:" + nm))


def _erange(self, n):
    return C(34)


PathExec.globals_const = _erange


def c_strtol(ex, _n, a):
    return _strto(ex, "int", a, LONG)


c_strtoll = c_strtol


def c_strtod(ex, _n, a):
    return _strto(ex, "real", a, DBL)


c_strtof = c_strtold = c_strtod


def c_atoi(ex, _n, a):
    t = text(ex, a[0])
    s = _tokname(t)
    if all(dag.isc(c) for c in t):
        import re

        m = re.match(r"\s*[+-]?\d+", s)
        v = int(m.group(0)) if m else 0
        return S(INT, C((v + 2**31) % 2**32 - 2**31))
    # symbolic digits: spell the number out
    v, k, neg = C(0), 0, False
    while k < len(t) and ex.truth(ex.b2i(CLASS["isspace"](t[k]))):
        k += 1
    if k < len(t) and (is_(ex, t[k], 45) or is_(ex, t[k], 43)):
        neg = is_(ex, t[k], 45)
        k += 1
    n = 0
    while k < len(t) and ex.truth(ex.b2i(CLASS["isdigit"](t[k]))):
        v = add(dag.mul(v, C(10)), dag.sub(t[k], C(48)))
        k += 1
        n += 1
        if n > 9 and not (dag.isc(v) and v.a[0] == 0):
            # more than nine digits: zeros may lead, otherwise the result is undefined
            if not ex.decide(le(v, C(2**31 - 1))):
                raise Inconclusive("atoi overflow")
    return S(INT, dag.neg(v) if neg else v)


# ------------------------------------------------------------------ files, output, exit
def c_fopen(ex, _n, a):
    nm = _tokname(text(ex, a[0]))
    if nm not in ex.fs:
        return P(None)
    if not (ex.fs[nm][1] is True or ex.decide(eq(V("exists:" + nm), C(1)))):
        return P(None)
    o = Arr(ex, CHAR, "FILE:" + nm, 1)
    o.file, o.pos = nm, 0
    ex.opened.append(nm)
    return P(o, dag.ZERO)


def c_fclose(ex, _n, a):
    o = ptr(a[0]).obj
    if getattr(o, "closed", False):
        raise ExecError("fclose of a closed file")
    o.closed = True
    return S(INT, C(0))


def c_fgets(ex, _n, a):
    d, n, o = ptr(a[0]), num(a[1]), ptr(a[2]).obj
    if getattr(o, "closed", False):
        raise ExecError("fgets from a closed file")
    lines = ex.fs[o.file][0]
    if o.pos >= len(lines):
        return P(None)
    t = lines[o.pos]
    if len(t) >= n:
        raise Inconclusive("line longer than the buffer")
    o.pos += 1
    fill(ex, d, list(t) + [C(0)])
    return ptr(a[0])


def _nop(ex, _n, a):
    return S(INT, C(0))


c_fprintf = c_printf = c_fputs = c_puts = c_perror = c_fflush = c_putchar = c_fputc = _nop


def c_exit(ex, _n, a):
    raise Exit(a[0].n)


def c_abort(ex, _n, a):
    raise Exit(C(134))


# ------------------------------------------------------------------ feasibility
class Feasible:
    """Satisfiability of path conditions, one z3 query per new condition."""

    def __init__(self, domain):
        self.domain = domain  # name -> (lo, hi)
        self.memo = {}
        self.cache = {}

    def z(self, c):
        return loops.zint(c, self.memo)

    def dom(self, conds):
        out = []
        for n in dag.variables(conds):
            lo, hi = self.domain(n)
            x = z3.Int(n)
            if lo is not None:
                out += [x >= lo, x <= hi]
        return out

    def __call__(self, pc):
        # only conditions sharing variables with the last one matter: the rest is known satisfiable
        vs = set(dag.variables([pc[-1]]))
        rel = [pc[-1]]
        rest = pc[:-1]
        grown = True
        while grown:
            grown = False
            for c in list(rest):
                w = set(dag.variables([c]))
                if w & vs:
                    rel.append(c)
                    rest.remove(c)
                    vs |= w
                    grown = True
        key = frozenset(c.id for c in rel)
        if key not in self.cache:
            r, _m = loops.check([self.z(c) for c in rel] + self.dom(rel))
            if r == z3.unknown:
                raise Inconclusive("path feasibility undecided")
            self.cache[key] = r == z3.sat
        return self.cache[key]

    def model(self, pc, extra=()):
        cs = list(pc) + list(extra)
        r, m = loops.check([self.z(c) for c in cs] + self.dom(cs))
        if r == z3.unsat:
            return None
        if r != z3.sat:
            raise Inconclusive("undecided")
        return {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in dag.variables(cs)}
