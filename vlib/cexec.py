"""Symbolic executor for (generated) C over the DAG of vlib.dag.

The translation unit is preprocessed with gcc -E against declaration-only system
headers, parsed with pycparser and executed: floating-point values are exact reals,
integers are mathematical integers with C truncating division, array elements are
initially unconstrained symbols. Branches on symbolic conditions fork paths
(explore); loops must have bounds that become concrete.
"""
import os
import re
import subprocess
import tempfile
from fractions import Fraction

from vlib import dag
from vlib.core import Inconclusive, rmtree, scratch
from vlib.dag import C, N, ONE, ZERO, V

try:
    import pycparser
except ImportError:
    import sys

    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import pycparser
from pycparser import c_ast, c_parser

FAKEINC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fakeinc")


class CompileError(Exception):
    """gcc rejects the generated code."""


class ExecError(Exception):
    """The encoded code does something with no defined meaning (e.g. out-of-bounds local array)."""


class T:
    __slots__ = ("k", "name", "elem", "n", "fields")

    def __init__(self, k, name=None, elem=None, n=None, fields=None):
        self.k, self.name, self.elem, self.n, self.fields = k, name, elem, n, fields

    def __repr__(self):
        return f"T({self.k},{self.name},{self.elem},{self.n})"


INT = T("int", "int")
LONG = T("int", "long")
BOOL = T("int", "_Bool")
DBL = T("flt", "double")
FLT = T("flt", "float")
LDBL = T("flt", "long double")
VOID = T("void")
CHAR = T("int", "char")


class S:
    """Scalar rvalue."""

    __slots__ = ("t", "n")

    def __init__(self, t, n):
        self.t, self.n = t, n

    def __repr__(self):
        return f"S({self.n})"


class VecVal:
    """SIMD vector rvalue: list of lane nodes (or mask conditions)."""

    __slots__ = ("l",)

    def __init__(self, l):
        self.l = list(l)


class P:
    """Pointer: array object + offset node; obj None = null/opaque."""

    __slots__ = ("obj", "off", "t")

    def __init__(self, obj, off=ZERO, t=None):
        self.obj, self.off, self.t = obj, off, t


class Cell:
    __slots__ = ("t", "v", "name")

    def __init__(self, t, v=None, name=""):
        self.t, self.v, self.name = t, v, name


class Arr:
    """Array object. conc: concrete index -> Cell/Arr/St ; stores: symbolic-index writes."""

    def __init__(self, ex, elem, name, n=None, initfn=None):
        self.ex, self.elem, self.name, self.n = ex, elem, name, n
        self.conc = {}
        self.stores = []  # list of (idx node, value); concrete indices go to conc while no symbolic store exists
        self.loads = []
        self.written = []
        self.initfn = initfn
        self.freed = False
        self.bytes = None

    def _init(self, idx):
        if self.initfn is not None:
            return self.initfn(idx)
        return None


class St:
    def __init__(self, ex, t, name, init=None):
        self.ex, self.t, self.name = ex, t, name
        self.f = {}
        self.init = init

    def field(self, fname):
        if fname not in self.f:
            ft = self.t.fields.get(fname) if self.t.fields else None
            if ft is None:
                raise ExecError(f"no field {fname} in struct {self.t.name}")
            v = None
            nm = f"{self.name}.{fname}"
            if self.init is not None:
                v = self.init(self, fname, ft)
            self.f[fname] = v if isinstance(v, (Cell, Arr, St)) else self.ex.newobj(ft, nm, init=v, symbolic=self.init is not None)
        return self.f[fname]


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        super().__init__()
        self.v = v


def preprocess(src, defines=(), incdirs=(), undefs=(), real_simd=None):
    d = scratch("cpp_")
    try:
        p = os.path.join(d, "x.c")
        with open(p, "w", encoding="utf-8") as f:
            f.write(src)
        cmd = ["gcc", "-E", "-P", "-nostdinc", "-I", FAKEINC]
        for i in incdirs:
            cmd += ["-I", i]
        cmd += ["-U__SSE2__", "-U__SSE3__", "-U__AVX__", "-U__FMA__", "-U__AVX512F__"]
        for x in undefs:
            cmd.append("-U" + x)
        for x in defines:
            cmd.append("-D" + x)
        cmd += ["-D__attribute__(x)=", "-Drestrict=", "-D__restrict__=", "-D__restrict=", "-D__inline__=inline", "-D__extension__=", "-Dnoinline="]
        r = subprocess.run(cmd + [p], capture_output=True, text=True, check=False)
        if r.returncode != 0:
            raise CompileError(r.stderr[:2000])
        out = r.stdout
    finally:
        rmtree(d)
    return out


def syntax_check(src, flags=(), incdirs=(), lang="c"):
    """gcc -fsyntax-only on the real source with the real system headers. Returns '' or the error text."""
    d = scratch("syn_")
    try:
        p = os.path.join(d, "x.c")
        with open(p, "w", encoding="utf-8") as f:
            f.write(src)
        cmd = ["gcc", "-std=gnu99", "-D_GNU_SOURCE", "-fsyntax-only", "-w", "-Werror=implicit-function-declaration"]
        for i in incdirs:
            cmd += ["-I", i]
        r = subprocess.run(cmd + list(flags) + [p], capture_output=True, text=True, check=False)
        return "" if r.returncode == 0 else r.stderr[:3000]
    finally:
        rmtree(d)


def _stmt_exprs(text):
    """Replace GNU statement expressions ({ ... }) by calls of pseudo functions."""
    out = []
    bodies = []
    i = 0
    while i < len(text):
        if text[i] == "(":
            j = i + 1
            while j < len(text) and text[j] in " \t\n":
                j += 1
            if j < len(text) and text[j] == "{":
                depth = 0
                k = j
                while True:
                    if text[k] == "{":
                        depth += 1
                    elif text[k] == "}":
                        depth -= 1
                        if depth == 0:
                            break
                    k += 1
                m = k + 1
                while text[m] in " \t\n":
                    m += 1
                if text[m] == ")":
                    body = text[j : k + 1]
                    bodies.append(body)
                    out.append(f"__stmtexpr_{len(bodies)-1}()")
                    i = m + 1
                    continue
        out.append(text[i])
        i += 1
    return "".join(out), bodies


def _typeof(text):
    """__typeof(expr) in a declaration: the declared object takes the type of its initialiser."""
    out = ""
    while True:
        m = re.search(r"__typeof\s*\(", text)
        if m is None:
            return out + text
        k, depth = m.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(text[k], 0)
            k += 1
        out += text[: m.start()] + "__autotype"
        text = text[k:]


class Exec:
    def __init__(self, src, defines=(), incdirs=(), width=1, max_steps=2000000, preprocessed=False):
        text = src if preprocessed else preprocess(src, defines, incdirs)
        text = re.sub(r"^\s*#.*$", "", text, flags=re.M)
        text = re.sub(r"_Pragma\s*\(\s*\"[^\"]*\"\s*\)", "", text)
        text = re.sub(r"\b__typeof__\b|\btypeof\b", "__typeof", text)
        text = "typedef int __autotype;\n" + _typeof(text)
        text, bodies = _stmt_exprs(text)
        k = 0
        while k < len(bodies):
            # nested statement expressions (MIN(MIN(a, b), c))
            inner, sub = _stmt_exprs(bodies[k][1:-1])
            for i in range(len(sub) - 1, -1, -1):
                inner = inner.replace(f"__stmtexpr_{i}()", f"__stmtexpr_{len(bodies) + i}()")
            bodies[k] = "{" + inner + "}"
            bodies += sub
            k += 1
        extra = ""
        for k, b in enumerate(bodies):
            extra += f"\nvoid __stmtexpr_{k}(void) {b}\n"
        self.text = text
        self.width = width
        try:
            self.ast = c_parser.CParser().parse(text + extra)
        except Exception as e:  # pylint: disable=broad-except
            raise Inconclusive(f"pycparser: {e}") from e
        self.typedefs = {"__builtin_va_list": VOID}
        self.auto = T("auto")
        self.structs = {}
        self.enums = {}
        self.funcs = {}
        self.protos = {}
        self.stubs = dict(BUILTINS)
        self.globals = {}
        self.scopes = []
        self.steps = 0
        self.max_steps = max_steps
        self.decide = None  # callback(cond node) -> bool for symbolic branch
        self.loop_hook = None
        self.trunc_hook = None  # callback(real node) -> integer node
        self.trace = []
        self.warn_f32 = False
        self.heap = []
        self._load()

    # ------------------------------------------------------------ declarations
    def _load(self):
        for ext in self.ast.ext:
            if isinstance(ext, c_ast.FuncDef):
                self.funcs[ext.decl.name] = ext
            elif isinstance(ext, c_ast.Typedef) and ext.name == "__autotype":
                self.typedefs[ext.name] = self.auto
            elif isinstance(ext, c_ast.Typedef):
                self.typedefs[ext.name] = self.ty(ext.type)
            elif isinstance(ext, c_ast.Decl):
                if isinstance(ext.type, c_ast.FuncDecl):
                    self.protos[ext.name] = ext
                elif ext.name is None:
                    self.ty(ext.type)
                else:
                    t = self.ty(ext.type)
                    if "extern" in (ext.storage or []):
                        self.globals[ext.name] = self.newobj(t, ext.name, symbolic=True)
                    else:
                        self.globals[ext.name] = self.newobj(t, ext.name)
                        if ext.init is not None:
                            self.initialise(self.globals[ext.name], ext.init)

    def ty(self, n):
        if isinstance(n, c_ast.TypeDecl):
            return self.ty(n.type)
        if isinstance(n, c_ast.Typename):
            return self.ty(n.type)
        if isinstance(n, c_ast.IdentifierType):
            names = n.names
            if len(names) == 1 and names[0] in self.typedefs:
                return self.typedefs[names[0]]
            s = " ".join(names)
            if s == "void":
                return VOID
            if "double" in names:
                return LDBL if "long" in names else DBL
            if "float" in names:
                return FLT
            if "_Bool" in names:
                return BOOL
            if "char" in names:
                return CHAR
            if any(x in ("int", "long", "short", "unsigned", "signed", "__int128") for x in names):
                return T("int", s)
            raise ExecError(f"unknown type {s}")
        if isinstance(n, c_ast.PtrDecl):
            if isinstance(n.type, c_ast.FuncDecl):
                return T("ptr", elem=T("func"))
            return T("ptr", elem=self.ty(n.type))
        if isinstance(n, c_ast.ArrayDecl):
            dim = None
            if n.dim is not None:
                v = self.eval(n.dim)
                dim = v.n
            return T("arr", elem=self.ty(n.type), n=dim)
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            key = n.name or id(n)
            t = self.structs.get(key)
            if t is None:
                t = T("struct", name=n.name or "anon")
                self.structs[key] = t
            if n.decls is not None:
                t.fields = {}
                for d in n.decls:
                    if isinstance(d, c_ast.Decl):
                        t.fields[d.name] = self.ty(d.type)
            return t
        if isinstance(n, c_ast.Enum):
            if n.values:
                cur = -1
                for e in n.values.enumerators:
                    cur = int(self.eval(e.value).n.a[0]) if e.value is not None else cur + 1
                    self.enums[e.name] = cur
            return INT
        if isinstance(n, c_ast.FuncDecl):
            return T("func")
        raise ExecError(f"type {type(n)}")

    def newobj(self, t, name, init=None, symbolic=False):
        if t.k == "arr":
            n = t.n
            if n is not None and dag.isc(n):
                n = int(n.a[0])
            a = Arr(self, t.elem, name, n)
            if symbolic:
                a.initfn = self._sym_elem(name, t.elem)
            return a
        if t.k == "struct":
            if symbolic:
                return St(self, t, name, init=lambda s, f, ft: self._sym_field(s, f, ft))
            return St(self, t, name)
        c = Cell(t, init, name)
        if symbolic and init is None:
            c.v = self._sym_value(t, name)
        return c

    def _sym_elem(self, name, elem):
        def f(idx):
            nm = f"{name}[{idx.a[0]}]" if dag.isc(idx) else None
            if elem.k in ("flt", "int"):
                return S(elem, V(nm) if nm else dag.fn("ld:" + name, idx))
            return self.newobj(elem, nm or f"{name}[?{idx.id}]", symbolic=True)

        return f

    def _sym_value(self, t, name):
        if t.k in ("flt", "int"):
            return S(t, V(name))
        if t.k == "ptr":
            return P(Arr(self, t.elem, name, None, self._sym_elem(name, t.elem)), ZERO, t)
        return None

    def _sym_field(self, st, fname, ft):
        nm = f"{st.name}.{fname}"
        if ft.k in ("arr", "struct"):
            return self.newobj(ft, nm, symbolic=True)
        return Cell(ft, self._sym_value(ft, nm), nm)

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        f = self.funcs.get(name)
        if f is None:
            raise ExecError(f"no function {name}")
        saved = self.scopes
        self.scopes = [{}]
        params = f.decl.type.args.params if f.decl.type.args else []
        params = [p for p in params if not (isinstance(p, c_ast.Typename) or p.name is None)]
        if len(params) != len(args):
            raise ExecError(f"{name}: {len(args)} args for {len(params)} params")
        for p, a in zip(params, args):
            t = self.ty(p.type)
            if t.k == "arr":
                t = T("ptr", elem=t.elem)
            if isinstance(a, (Arr,)):
                a = P(a, ZERO, t)
            c = Cell(t, None, p.name)
            self.scopes[-1][p.name] = c
            if isinstance(a, St):
                self.scopes[-1][p.name] = a
            else:
                c.v = self.convert(a, t)
        try:
            self.stmt(f.body)
            r = None
        except Return as e:
            r = e.v
            if r is not None:
                rt = self.ty(f.decl.type.type)
                if rt.k != "struct":
                    r = self.convert(r, rt)
        finally:
            self.scopes = saved
        return r

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        if name in self.globals:
            return self.globals[name]
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Inconclusive("step bound exceeded")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            return self.eval(s)
        return m(s)

    def st_Compound(self, s):
        self.scopes.append({})
        try:
            for x in s.block_items or []:
                self.stmt(x)
        finally:
            self.scopes.pop()

    def st_DeclList(self, s):
        for d in s.decls:
            self.stmt(d)

    def st_Decl(self, s):
        if isinstance(s.type, c_ast.FuncDecl):
            return
        t = self.ty(s.type)
        if s.name is None:
            return
        if t.k == "auto":
            v = self.eval(s.init)
            self.scopes[-1][s.name] = Cell(v.t, v, s.name)
            return
        if t.k == "arr" and t.n is None and s.init is not None:
            if isinstance(s.init, c_ast.InitList):
                t = T("arr", elem=t.elem, n=C(len(s.init.exprs)))
            else:
                t = T("arr", elem=t.elem, n=C(len(s.init.value) - 1))
        o = self.newobj(t, s.name)
        if s.init is not None:
            # initialiser may refer to an outer variable of the same name in C only in odd code
            self.initialise(o, s.init)
        self.scopes[-1][s.name] = o

    def initialise(self, o, init):
        if isinstance(o, Arr):
            if isinstance(init, c_ast.InitList):
                k = 0
                for x in init.exprs:
                    if isinstance(x, c_ast.NamedInitializer):
                        k = int(self.eval(x.name[0]).n.a[0])
                        x = x.expr
                    if o.elem is not None and o.elem.k in ("arr", "struct"):
                        self.initialise(self.elem_obj(o, C(k)), x)
                    else:
                        c = Cell(o.elem, None, f"{o.name}[{k}]")
                        self.initialise(c, x)
                        o.conc[k] = c
                    k += 1
                o.initfn = o.initfn or (lambda idx: S(o.elem, ZERO) if o.elem.k in ("int", "flt") else None)
            return
        if isinstance(o, St):
            if isinstance(init, c_ast.InitList):
                for x, fname in zip(init.exprs, list(o.t.fields)):
                    if isinstance(x, c_ast.NamedInitializer):
                        self.initialise(o.field(x.name[0].name), x.expr)
                    else:
                        self.initialise(o.field(fname), x)
            else:
                v = self.eval(init)
                self.copy_struct(o, v)
            return
        if isinstance(init, c_ast.InitList):
            init = init.exprs[0]
        v = self.eval(init)
        o.v = self.convert(v, o.t)

    def copy_struct(self, dst, src):
        if not isinstance(src, St):
            raise ExecError("struct copy")
        for f in src.t.fields or {}:
            s = src.field(f)
            if isinstance(s, Cell):
                dst.f[f] = Cell(s.t, s.v, s.name)
            else:
                dst.f[f] = s

    def st_Typedef(self, s):
        self.typedefs[s.name] = self.ty(s.type)

    def st_Pragma(self, s):
        pass

    def st_EmptyStatement(self, s):
        pass

    def st_If(self, s):
        if self.truth(self.eval(s.cond)):
            self.stmt(s.iftrue)
        elif s.iffalse is not None:
            self.stmt(s.iffalse)

    def st_For(self, s):
        if self.loop_hook is not None and self.loop_hook(self, s):
            return
        self.scopes.append({})
        try:
            if s.init is not None:
                self.stmt(s.init)
            while True:
                if s.cond is not None and not self.truth(self.eval(s.cond)):
                    break
                try:
                    self.stmt(s.stmt)
                except Break:
                    break
                except Continue:
                    pass
                if s.next is not None:
                    self.eval(s.next)
        finally:
            self.scopes.pop()

    def st_While(self, s):
        while self.truth(self.eval(s.cond)):
            try:
                self.stmt(s.stmt)
            except Break:
                break
            except Continue:
                continue

    def st_DoWhile(self, s):
        while True:
            try:
                self.stmt(s.stmt)
            except Break:
                break
            except Continue:
                pass
            if not self.truth(self.eval(s.cond)):
                break

    def st_Switch(self, s):
        v = self.eval(s.cond)
        items = s.stmt.block_items if isinstance(s.stmt, c_ast.Compound) else [s.stmt]
        start = None
        default = None
        for i, it in enumerate(items):
            if isinstance(it, c_ast.Case):
                if start is None and self.truth(S(INT, dag.eq(v.n, self.eval(it.expr).n))):
                    start = i
            elif isinstance(it, c_ast.Default):
                default = i
        if start is None:
            start = default
        if start is None:
            return
        self.scopes.append({})
        try:
            for it in items[start:]:
                for x in it.stmts if isinstance(it, (c_ast.Case, c_ast.Default)) else [it]:
                    self.stmt(x)
        except Break:
            pass
        finally:
            self.scopes.pop()

    def st_Break(self, s):
        raise Break()

    def st_Continue(self, s):
        raise Continue()

    def st_Return(self, s):
        raise Return(self.eval(s.expr) if s.expr is not None else None)

    def st_Label(self, s):
        self.stmt(s.stmt)

    # ------------------------------------------------------------ values
    def truth(self, v):
        n = self.cond(v)
        if n is dag.TRUE:
            return True
        if n is dag.FALSE:
            return False
        if self.decide is None:
            raise Inconclusive(f"symbolic branch {n}")
        return self.decide(n)

    def cond(self, v):
        if isinstance(v, P):
            if v.obj is None:
                return dag.FALSE
            return dag.TRUE
        n = v.n
        if n.op in ("<", "<=", "==", "and", "not", "true", "false"):
            return n
        if n.op == "c":
            return dag.TRUE if n.a[0] != 0 else dag.FALSE
        if n.op == "ite" and dag.isc(n.a[1]) and dag.isc(n.a[2]):
            if n.a[1].a[0] == 1 and n.a[2].a[0] == 0:
                return n.a[0]
        return dag.not_(dag.eq(n, ZERO))

    def b2i(self, n):
        """boolean node -> integer rvalue"""
        if n is dag.TRUE:
            return S(INT, ONE)
        if n is dag.FALSE:
            return S(INT, ZERO)
        return S(INT, dag.ite(n, ONE, ZERO))

    def convert(self, v, t):
        if v is None:
            raise ExecError("use of void/uninitialised value")
        if isinstance(v, VecVal) or isinstance(v, St):
            return v
        if isinstance(v, Arr):
            return P(v, ZERO, T("ptr", elem=v.elem))
        if isinstance(v, S) and v.t.k == "func":
            return v
        if isinstance(v, P):
            if t.k == "ptr":
                if isinstance(v.obj, Arr) and v.obj.elem is None and t.elem is not None and t.elem.k != "void":
                    v.obj.elem = t.elem
                    if v.obj.bytes is not None:
                        cnt = dag.subst(v.obj.bytes, {"sizeof:" + self.sizename(t.elem): ONE})
                        v.obj.count = cnt
                        if dag.isc(cnt):
                            v.obj.n = int(cnt.a[0])
                return P(v.obj, v.off, t)
            return v
        if t.k == "int":
            n = v.n
            if v.t.k == "flt":
                if dag.isc(n):
                    q = n.a[0]
                    n = C(int(q)) if t.name != "_Bool" else C(1 if q != 0 else 0)
                elif t.name == "_Bool":
                    n = dag.ite(dag.not_(dag.eq(n, ZERO)), ONE, ZERO)
                elif self.trunc_hook is not None:
                    n = self.trunc_hook(n)
                else:
                    n = dag.fn("trunc", n)
            elif t.name == "_Bool":
                n = self.b2i(self.cond(v)).n
            elif dag.isc(n) and t.name in ("int", "signed int") and not -(2**31) <= n.a[0] < 2**31:
                n = C((int(n.a[0]) + 2**31) % 2**32 - 2**31)
            elif dag.isc(n) and t.name == "char":
                n = C((int(n.a[0]) + 128) % 256 - 128)
            return S(t, n)
        if t.k == "flt":
            n = v.n
            if self.warn_f32 and t.name == "float" and v.t.k == "flt" and v.t.name != "float" and not dag.isc(n):
                n = dag.fn("f32", n)
            return S(t, n)
        if t.k == "ptr":
            if v.t.k == "int" and dag.isc(v.n) and v.n.a[0] == 0:
                return P(None, ZERO, t)
            return v
        if t.k == "void":
            return v
        raise ExecError(f"convert to {t}")

    # ---- lvalues: ('cell', Cell) | ('elem', Arr, idx) | St | Arr
    def elem(self, arr, idx, write=False):
        """Sub-object of arr at idx for aggregate access, or an element reference."""
        return ElemRef(self, arr, idx)

    def lval(self, e):
        k = type(e).__name__
        if k == "ID":
            o = self.lookup(e.name)
            if o is None:
                raise ExecError(f"undeclared identifier {e.name}")
            return o
        if k == "ArrayRef":
            base = self.eval(e.name)
            idx = self.eval(e.subscript)
            if isinstance(base, Arr):
                base = P(base)
            if isinstance(idx, P):
                base, idx = idx, base
            if not isinstance(base, P) or base.obj is None:
                raise ExecError("subscript of non-pointer / NULL")
            return self.elem_obj(base.obj, dag.add(base.off, idx.n))
        if k == "StructRef":
            if e.type == "->":
                p = self.eval(e.name)
                if isinstance(p, Arr):
                    p = P(p)
                if not isinstance(p, P) or p.obj is None:
                    raise ExecError(f"-> on NULL or non-pointer ({e.field.name})")
                st = self.elem_obj(p.obj, p.off) if isinstance(p.obj, Arr) else p.obj
            else:
                st = self.lval(e.name) if type(e.name).__name__ != "FuncCall" else self.eval(e.name)
            if isinstance(st, ElemRef):
                st = st.sub()
            if not isinstance(st, St):
                raise ExecError(f"field {e.field.name} of non-struct {st}")
            return st.field(e.field.name)
        if k == "UnaryOp" and e.op == "*":
            p = self.eval(e.expr)
            if isinstance(p, Arr):
                p = P(p)
            if not isinstance(p, P) or p.obj is None:
                raise ExecError("dereference of NULL or non-pointer")
            if isinstance(p.obj, Arr):
                return self.elem_obj(p.obj, p.off)
            return p.obj
        if k == "Cast":
            return self.lval(e.expr)
        raise ExecError(f"lvalue {k}")

    def elem_obj(self, arr, idx):
        if not isinstance(arr, Arr):
            if dag.isc(idx) and idx.a[0] == 0:
                return arr
            raise ExecError("pointer arithmetic on a scalar object")
        if arr.freed:
            raise ExecError(f"access to freed memory {arr.name}")
        if arr.elem is None:
            raise ExecError(f"access to untyped memory {arr.name}")
        if arr.n is not None and isinstance(arr.n, int) and dag.isc(idx):
            if not 0 <= idx.a[0] < arr.n:
                raise ExecError(f"index {idx.a[0]} outside {arr.name}[{arr.n}]")
        r = ElemRef(self, arr, idx)
        if arr.elem is not None and arr.elem.k in ("arr", "struct"):
            return r.sub()
        return r

    def read(self, o):
        if isinstance(o, Cell):
            if o.v is None:
                raise ExecError(f"read of uninitialised {o.name}")
            return o.v
        if isinstance(o, ElemRef):
            return o.read()
        return o

    def write(self, o, v):
        if isinstance(o, Cell):
            o.v = self.convert(v, o.t)
            return o.v
        if isinstance(o, ElemRef):
            return o.write(v)
        if isinstance(o, St):
            self.copy_struct(o, v)
            return o
        raise ExecError(f"assignment to {o}")

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Inconclusive(f"expression {type(e).__name__}")
        return m(e)

    def ex_Constant(self, e):
        s = e.value
        if e.type in ("int", "long int", "unsigned int", "long long int", "unsigned long int", "unsigned long long int"):
            s2 = s.rstrip("uUlL")
            if s2.lower().startswith("0x"):
                v = int(s2, 16)
            elif len(s2) > 1 and s2.startswith("0"):
                v = int(s2, 8)
            else:
                v = int(s2)
            return S(INT if e.type == "int" else LONG, C(v))
        if e.type in ("float", "double", "long double"):
            t = DBL
            if s[-1] in "fF" and not s.lower().startswith("0x"):
                s, t = s[:-1], FLT
            elif s[-1] in "lL":
                s, t = s[:-1], LDBL
            return S(t, C(snap(Fraction(s), t.name == "float")))
        if e.type == "char":
            body = s[1:-1]
            if body.startswith("\\"):
                v = {"n": 10, "t": 9, "0": 0, "r": 13, "\\": 92, "'": 39, '"': 34}.get(body[1:])
                if v is None:
                    raise Inconclusive("char " + s)
            else:
                v = ord(body)
            return S(INT, C(v))
        if e.type == "string":
            body = s[1:-1].encode().decode("unicode_escape")
            a = Arr(self, CHAR, f"str{body[:20]!r}", len(body) + 1)
            for i, ch in enumerate(body):
                a.conc[i] = S(CHAR, C(ord(ch)))
            a.conc[len(body)] = S(CHAR, ZERO)
            a.string = body
            return P(a, ZERO, T("ptr", elem=CHAR))
        raise Inconclusive(f"constant {e.type}")

    def ex_ID(self, e):
        if e.name in self.enums and self.lookup(e.name) is None:
            return S(INT, C(self.enums[e.name]))
        o = self.lookup(e.name)
        if e.name in MCONST and (o is None or o is self.globals.get(e.name)):
            return S(DBL, MCONST[e.name])
        if o is None:
            if e.name in self.funcs or e.name in self.protos:
                return S(T("func", name=e.name), V("&" + e.name))
            raise ExecError(f"undeclared identifier {e.name}")
        if isinstance(o, Arr):
            return o
        return self.read(o)

    def ex_ArrayRef(self, e):
        return self.read(self.lval(e))

    def ex_StructRef(self, e):
        return self.read(self.lval(e))

    def ex_UnaryOp(self, e):
        op = e.op
        if op == "&":
            o = self.lval(e.expr)
            if isinstance(o, ElemRef):
                return P(o.arr, o.idx, T("ptr", elem=o.arr.elem))
            if isinstance(o, Arr):
                return P(o, ZERO, T("ptr", elem=o.elem))
            if isinstance(o, St) and getattr(o, "home", None) is not None:
                return P(o.home[0], o.home[1])
            return P(o, ZERO, T("ptr", elem=o.t))
        if op == "*":
            return self.read(self.lval(e))
        if op in ("++", "--", "p++", "p--"):
            o = self.lval(e.expr)
            v = self.read(o)
            d = C(1 if "+" in op else -1)
            nv = P(v.obj, dag.add(v.off, d), v.t) if isinstance(v, P) else S(v.t, dag.add(v.n, d))
            self.write(o, nv)
            return v if op.startswith("p") else nv
        if op == "sizeof":
            if isinstance(e.expr, c_ast.Typename):
                return S(LONG, V("sizeof:" + self.sizename(self.ty(e.expr))))
            o = self.eval(e.expr)
            t = o.elem if isinstance(o, Arr) else o.t
            if isinstance(o, Arr) and o.n is not None:
                return S(LONG, dag.mul(V("sizeof:" + self.sizename(t)), C(o.n) if isinstance(o.n, int) else o.n))
            return S(LONG, V("sizeof:" + self.sizename(t)))
        v = self.eval(e.expr)
        if op == "-":
            if isinstance(v, VecVal):
                return VecVal(dag.neg(x) for x in v.l)
            if v.t.k == "flt" and v.n is ZERO:
                return S(v.t, NEGZERO)
            return S(v.t, dag.neg(v.n))
        if op == "+":
            return v
        if op == "!":
            return self.b2i(dag.not_(self.cond(v)))
        if op == "~":
            if dag.isc(v.n):
                return S(v.t, C(~int(v.n.a[0])))
        raise Inconclusive(f"unary {op}")

    def sizename(self, t):
        if t.k == "ptr":
            return "ptr"
        return str(t.name or t.k)

    def ex_BinaryOp(self, e):
        op = e.op
        if op in ("&&", "||"):
            a = self.cond(self.eval(e.left))
            if op == "&&" and a is dag.FALSE:
                return S(INT, ZERO)
            if op == "||" and a is dag.TRUE:
                return S(INT, ONE)
            b = self.cond(self.eval(e.right))
            return self.b2i(dag.and_(a, b) if op == "&&" else dag.or_(a, b))
        return self.binop(op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        if isinstance(a, Arr):
            a = P(a)
        if isinstance(b, Arr):
            b = P(b)
        if isinstance(a, VecVal) or isinstance(b, VecVal):
            w = len(a.l) if isinstance(a, VecVal) else len(b.l)
            la = a.l if isinstance(a, VecVal) else [a.n] * w
            lb = b.l if isinstance(b, VecVal) else [b.n] * w
            f = {"+": dag.add, "-": dag.sub, "*": dag.mul, "/": dag.div}.get(op)
            if f is None:
                raise Inconclusive("vector op " + op)
            return VecVal(f(x, y) for x, y in zip(la, lb))
        if isinstance(a, P) or isinstance(b, P):
            return self.ptrop(op, a, b)
        if a is None or b is None:
            raise ExecError("use of uninitialised value")
        isint = a.t.k == "int" and b.t.k == "int"
        if op in ("<", "<=", ">", ">=", "==", "!="):
            r = {
                "<": lambda: dag.lt(a.n, b.n), "<=": lambda: dag.le(a.n, b.n), ">": lambda: dag.lt(b.n, a.n),
                ">=": lambda: dag.le(b.n, a.n), "==": lambda: dag.eq(a.n, b.n), "!=": lambda: dag.not_(dag.eq(a.n, b.n)),
            }[op]()
            return self.b2i(r)
        t = self.arith(a.t, b.t)
        if op == "+":
            return S(t, dag.add(a.n, b.n))
        if op == "-":
            return S(t, dag.sub(a.n, b.n))
        if op == "*":
            return S(t, dag.mul(a.n, b.n))
        if op == "/":
            if isint:
                if dag.isc(b.n) and b.n.a[0] == 0:
                    raise ExecError("integer division by zero")
                return S(t, dag.idiv(a.n, b.n))
            return S(t, dag.div(a.n, b.n))
        if op == "%":
            return S(t, dag.imod(a.n, b.n))
        if dag.isc(a.n) and dag.isc(b.n):
            x, y = int(a.n.a[0]), int(b.n.a[0])
            r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if 0 <= y < 64 else 0, ">>": x >> y if 0 <= y < 64 else 0}[op]
            return S(t, C(r))
        if op == "<<" and dag.isc(b.n):
            return S(t, dag.mul(a.n, C(1 << int(b.n.a[0]))))
        raise Inconclusive(f"symbolic {op}")

    def arith(self, a, b):
        for t in (LDBL, DBL, FLT):
            if a.name == t.name or b.name == t.name:
                return t
        for nm in (a.name, b.name):
            if nm and ("long" in nm or "unsigned" in nm):
                return T("int", nm)
        return INT

    def ptrop(self, op, a, b):
        if isinstance(a, P) and isinstance(b, S) and b.t.k == "int":
            if op == "+":
                return P(a.obj, dag.add(a.off, b.n), a.t)
            if op == "-":
                return P(a.obj, dag.sub(a.off, b.n), a.t)
            if op in ("==", "!=") and dag.isc(b.n) and b.n.a[0] == 0:
                return self.b2i(dag.TRUE if (a.obj is None) == (op == "==") else dag.FALSE)
        if isinstance(b, P) and isinstance(a, S) and op == "+":
            return P(b.obj, dag.add(b.off, a.n), b.t)
        if isinstance(a, P) and isinstance(b, P):
            if op == "-" and a.obj is b.obj:
                return S(LONG, dag.sub(a.off, b.off))
            if op in ("==", "!="):
                if a.obj is not b.obj:
                    return self.b2i(dag.FALSE if op == "==" else dag.TRUE)
                r = dag.eq(a.off, b.off)
                return self.b2i(r if op == "==" else dag.not_(r))
            if a.obj is b.obj and op in ("<", ">", "<=", ">="):
                return self.binop(op, S(LONG, a.off), S(LONG, b.off))
        raise ExecError(f"pointer op {op}")

    def ex_Assignment(self, e):
        o = self.lval(e.lvalue)
        if e.op == "=":
            v = self.eval(e.rvalue)
            if isinstance(v, Arr):
                v = P(v)
            return self.write(o, v)
        cur = self.read(o)
        v = self.binop(e.op[:-1], cur, self.eval(e.rvalue))
        return self.write(o, v)

    def ex_TernaryOp(self, e):
        c = self.cond(self.eval(e.cond))
        if c is dag.TRUE:
            return self.eval(e.iftrue)
        if c is dag.FALSE:
            return self.eval(e.iffalse)
        a = self.eval(e.iftrue)
        b = self.eval(e.iffalse)
        if isinstance(a, P) or isinstance(b, P):
            return a if self.truth(S(INT, c)) else b
        return S(self.arith(a.t, b.t), dag.ite(c, a.n, b.n))

    def ex_Cast(self, e):
        t = self.ty(e.to_type)
        v = self.eval(e.expr)
        if isinstance(v, Arr):
            v = P(v)
        return self.convert(v, t)

    def ex_ExprList(self, e):
        r = None
        for x in e.exprs:
            r = self.eval(x)
        return r

    def ex_CompoundLiteral(self, e):
        t = self.ty(e.type)
        o = self.newobj(t, "lit")
        self.initialise(o, e.init)
        return o if not isinstance(o, Cell) else o.v

    def ex_FuncCall(self, e):
        name = e.name.name if isinstance(e.name, c_ast.ID) else None
        if name is None:
            fv = self.eval(e.name)
            if isinstance(fv, S) and fv.t.k == "func":
                name = fv.t.name
            else:
                raise Inconclusive("indirect call")
        v = self.lookup(name)
        if isinstance(v, Cell) and isinstance(v.v, S) and v.v.t.k == "func":
            name = v.v.t.name
        if name.startswith("__stmtexpr_"):
            f = self.funcs[name]
            self.scopes.append({})
            try:
                r = None
                for x in f.body.block_items:
                    r = self.stmt(x)
                return r
            finally:
                self.scopes.pop()
        args = [self.eval(a) for a in e.args.exprs] if e.args else []
        if name in self.stubs:
            return self.stubs[name](self, name, args)
        if name in self.funcs:
            return self.call(name, args)
        r = intrinsic(self, name, args)
        if r is not NotImplemented:
            return r
        raise Inconclusive(f"call of unknown function {name}")


class ElemRef:
    """Reference to arr[idx]."""

    __slots__ = ("ex", "arr", "idx")

    def __init__(self, ex, arr, idx):
        self.ex, self.arr, self.idx = ex, arr, idx

    def sub(self):
        a = self.arr
        key = int(self.idx.a[0]) if dag.isc(self.idx) else ("s", self.idx.id)
        if key not in a.conc:
            v = a._init(self.idx)
            if v is None:
                nm = f"{a.name}[{key}]"
                v = self.ex.newobj(a.elem, nm)
            a.conc[key] = v
        o = a.conc[key]
        if isinstance(o, St):
            o.home = (a, self.idx)
        return o

    def read(self):
        a, idx = self.arr, self.idx
        if a.elem is not None and a.elem.k in ("arr", "struct"):
            return self.sub()
        a.loads.append(idx)
        for sidx, v in reversed(a.stores):
            r = same_index(sidx, idx)
            if r is True:
                return v
            if r is None:
                raise Inconclusive(f"aliasing undecided {sidx} vs {idx} in {a.name}")
        if dag.isc(idx) and int(idx.a[0]) in a.conc:
            v = a.conc[int(idx.a[0])]
            return v.v if isinstance(v, Cell) else v
        if not dag.isc(idx) and a.conc and a.elem is not None and a.elem.k in ("int", "flt"):
            # table lookup with a symbolic index
            ks = sorted(k for k in a.conc if isinstance(k, int))
            vals = [a.conc[k].v if isinstance(a.conc[k], Cell) else a.conc[k] for k in ks]
            if isinstance(a.n, int) and len(ks) == a.n:
                r = vals[-1].n
                ks, vals = ks[:-1], vals[:-1]
            else:
                d = a._init(idx)
                if d is None:
                    raise ExecError(f"read of uninitialised {a.name}[{idx}]")
                r = d.n
            for k, v in zip(ks, vals):
                r = dag.ite(dag.eq(idx, C(k)), v.n, r)
            return S(a.elem, r)
        v = a._init(idx)
        if v is None:
            raise ExecError(f"read of uninitialised {a.name}[{idx}]")
        if isinstance(v, Cell):
            v = v.v
        return v

    def write(self, v):
        a = self.arr
        if a.elem is not None and a.elem.k == "struct":
            return self.ex.write(self.sub(), v)
        if a.elem is not None and a.elem.k in ("flt", "int", "ptr"):
            v = self.ex.convert(v, a.elem)
        a.written.append(self.idx)
        if not a.stores and dag.isc(self.idx):
            a.conc[int(self.idx.a[0])] = v
            return v
        a.stores = [(s, w) for s, w in a.stores if same_index(s, self.idx) is not True]
        a.stores.append((self.idx, v))
        return v


def snap(q, single=False):
    """A printed double within rounding error of a simple fraction stands for that fraction."""
    r = q.limit_denominator(10**4 if single else 10**6)
    if r != q and r != 0 and abs(r - q) <= abs(q) * (Fraction(1, 10**7) if single else Fraction(1, 10**15)):
        return r
    return q


MCONST = {}
_pi, _e = V("M_PI"), V("M_E")
for _sfx in ("", "f", "l"):
    MCONST.update({
        "M_PI" + _sfx: _pi, "M_E" + _sfx: _e, "M_SQRT2" + _sfx: dag.root(C(2), 2), "M_SQRT1_2" + _sfx: dag.inv(dag.root(C(2), 2)),
        "M_PI_2" + _sfx: dag.mul(_pi, C(Fraction(1, 2))), "M_PI_4" + _sfx: dag.mul(_pi, C(Fraction(1, 4))), "M_1_PI" + _sfx: dag.inv(_pi),
        "M_2_PI" + _sfx: dag.mul(C(2), dag.inv(_pi)), "M_2_SQRTPI" + _sfx: dag.mul(C(2), dag.inv(dag.root(_pi, 2))),
        "M_LN2" + _sfx: dag.fn("log", C(2)), "M_LN10" + _sfx: dag.fn("log", C(10)),
    })
_same = {}


def same_index(a, b):
    """True/False when decided for all values; None undecided (may alias for some values)."""
    if a is b:
        return True
    key = (a.id, b.id)
    if key in _same:
        return _same[key]
    p = poly(dag.sub(a, b))
    if p is None:
        r = None
    elif not p:
        r = True
    elif set(p) == {()}:
        r = False
    else:
        r = None
    _same[key] = r
    return r


def poly(n):
    """Integer polynomial normal form {monomial: coeff} of an index node."""
    memo = {}
    for x in dag.topo([n]):
        o, a = x.op, x.a
        if o == "c":
            r = {(): a[0]} if a[0] != 0 else {}
        elif o == "+":
            r = dict(memo[a[0].id])
            for m, c in memo[a[1].id].items():
                r[m] = r.get(m, 0) + c
                if r[m] == 0:
                    del r[m]
        elif o == "*":
            r = {}
            for m1, c1 in memo[a[0].id].items():
                for m2, c2 in memo[a[1].id].items():
                    m = tuple(sorted(m1 + m2))
                    r[m] = r.get(m, 0) + c1 * c2
                    if r[m] == 0:
                        del r[m]
        else:
            r = {(x.id,): Fraction(1)}
        memo[x.id] = r
    return memo[n.id]


NEGZERO = dag.mk("fn", "negzero")
dag.MPFN["negzero"] = lambda: dag.mpmath.mpf(0)
dag.MPFN["atan2"] = dag.mpmath.atan2
dag.MPFN["f32"] = lambda x: x * (1 + dag.mpmath.mpf(2) ** -26)


def _m1(name):
    def f(ex, _n, args):
        a = args[0]
        return S(a.t if a.t.k == "flt" else DBL, dag.fn(name, nz(a.n)))

    return f


def nz(n):
    return ZERO if n is NEGZERO else n


def _sqrt(ex, _n, args):
    return S(args[0].t if args[0].t.k == "flt" else DBL, dag.root(args[0].n, 2))


def _cbrt(ex, _n, args):
    return S(args[0].t if args[0].t.k == "flt" else DBL, dag.root(args[0].n, 3))


def _pow(ex, _n, args):
    t = args[0].t if args[0].t.k == "flt" else DBL
    b = args[1].n
    if dag.isc(b) and b.a[0].denominator > 24:
        # a decimal literal close to a simple fraction (printed double): identify within 1 ulp
        q = b.a[0].limit_denominator(24)
        if abs(q - b.a[0]) < Fraction(1, 10**15):
            b = C(q)
    return S(t, dag.power(args[0].n, b))


def _fmax(ex, n, args):
    a, b = args[0].n, args[1].n
    return S(DBL, dag.ite(dag.lt(a, b), b, a) if n.startswith("fmax") else dag.ite(dag.lt(b, a), b, a))


def _fma(ex, n, args):
    return S(DBL, dag.add(dag.mul(args[0].n, args[1].n), args[2].n))


def _abs(ex, n, args):
    a = args[0].n
    return S(args[0].t, dag.ite(dag.lt(a, ZERO), dag.neg(a), a))


BUILTINS = {"abs": _abs, "labs": _abs}
for _f in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "exp", "log", "fabs", "asin", "acos", "atan", "asinh", "acosh", "atanh", "erf"):
    for _s in ("", "f", "l"):
        BUILTINS[_f + _s] = _m1(_f)
for _s in ("", "f", "l"):
    BUILTINS["sqrt" + _s] = _sqrt
    BUILTINS["cbrt" + _s] = _cbrt
    BUILTINS["pow" + _s] = _pow
    BUILTINS["fmax" + _s] = _fmax
    BUILTINS["fmin" + _s] = _fmax
    BUILTINS["fma" + _s] = _fma
    BUILTINS["atan2" + _s] = lambda ex, n, args: S(DBL, dag.fn("atan2", args[0].n, args[1].n))
    BUILTINS["exp2" + _s] = lambda ex, n, args: S(DBL, dag.power(C(2), args[0].n))
for _f in ("printf", "fprintf", "puts", "fflush"):
    BUILTINS[_f] = lambda ex, n, args: S(INT, ZERO)


def _malloc(ex, n, args):
    size = args[0].n
    if n == "calloc":
        size = dag.mul(args[0].n, args[1].n)
    k = len(ex.heap)
    a = Arr(ex, None, f"heap{k}", None)
    a.bytes = size
    if n == "calloc":
        a.initfn = lambda idx: S(a.elem, ZERO)
    ex.heap.append(a)
    return P(a, ZERO, T("ptr", elem=VOID))


def _free(ex, n, args):
    p = args[0]
    if isinstance(p, Arr):
        p = P(p)
    if p.obj is None:
        return None
    if not (isinstance(p.obj, Arr) and p.obj in ex.heap and dag.isc(p.off) and p.off.a[0] == 0):
        raise ExecError(f"free of a pointer that malloc did not return ({getattr(p.obj, 'name', p.obj)})")
    if p.obj.freed:
        raise ExecError(f"double free of {p.obj.name}")
    p.obj.freed = True
    return None


def _strcopy(ex, n, args):
    """Character data is opaque: the destination remembers its source."""
    d = args[0].obj if isinstance(args[0], P) else args[0]
    d.strval = args[1] if n != "snprintf" else args[2]
    return args[0]


BUILTINS["strncpy"] = BUILTINS["strcpy"] = BUILTINS["snprintf"] = _strcopy
BUILTINS["malloc"] = BUILTINS["calloc"] = _malloc
BUILTINS["free"] = _free


def _exit(ex, n, args):
    raise ExitCalled()


class ExitCalled(Exception):
    pass


BUILTINS["exit"] = _exit


def _lanes(v, w):
    if isinstance(v, VecVal):
        return v.l
    return [v.n] * w


def intrinsic(ex, name, args):
    """Intel intrinsics, lane by lane (semantics of the Intel Intrinsics Guide)."""
    m = re.fullmatch(r"_mm(256|512)?_(\w+)", name)
    if not m:
        return NotImplemented
    w = {"256": 4, "512": 8, None: 2}[m.group(1)]
    op = m.group(2)

    def vec(i, ww=w):
        a = args[i]
        if not isinstance(a, VecVal):
            raise ExecError(f"{name}: argument {i} is not a vector")
        if len(a.l) != ww:
            raise ExecError(f"{name}: vector of {len(a.l)} lanes")
        return a.l

    two = {"add_pd": dag.add, "sub_pd": dag.sub, "mul_pd": dag.mul, "div_pd": dag.div}
    if op in two:
        return VecVal(two[op](nz(x), nz(y)) for x, y in zip(vec(0), vec(1)))
    if op in ("max_pd", "min_pd"):
        return VecVal(
            dag.ite(dag.lt(y, x), x, y) if op == "max_pd" else dag.ite(dag.lt(x, y), x, y) for x, y in zip(vec(0), vec(1))
        )
    fm = {"fmadd_pd": (1, 1), "fmsub_pd": (1, -1), "fnmadd_pd": (-1, 1), "fnmsub_pd": (-1, -1)}
    if op in fm:
        s, u = fm[op]
        return VecVal(
            dag.add(dag.mul(C(s), dag.mul(nz(x), nz(y))), dag.mul(C(u), nz(z))) for x, y, z in zip(vec(0), vec(1), vec(2))
        )
    if op == "sqrt_pd":
        return VecVal(dag.root(x, 2) for x in vec(0))
    if op == "cbrt_pd":
        return VecVal(dag.root(x, 3) for x in vec(0))
    if op == "pow_pd":
        return VecVal(dag.power(x, y) for x, y in zip(vec(0), vec(1)))
    mm = re.fullmatch(r"(sin|cos|tan|exp|log|sinh|cosh|tanh|asin|acos|atan|erf)_pd", op)
    if mm:
        return VecVal(dag.fn(mm.group(1), x) for x in vec(0))
    if op in ("set1_pd",):
        a = args[0]
        return VecVal([a.n] * w)
    if op == "setzero_pd":
        return VecVal([ZERO] * w)
    if op in ("loadu_pd", "load_pd"):
        p = args[0] if isinstance(args[0], P) else P(args[0])
        if not isinstance(p.obj, Arr):
            raise ExecError(f"{name} from a non-array (reads {w} doubles)")
        return VecVal(ex.read(ex.elem_obj(p.obj, dag.add(p.off, C(i)))).n for i in range(w))
    if op in ("storeu_pd", "store_pd"):
        p = args[0] if isinstance(args[0], P) else P(args[0])
        if not isinstance(p.obj, Arr):
            raise ExecError(f"{name} to a non-array (writes {w} doubles)")
        for i, x in enumerate(vec(1)):
            ex.write(ex.elem_obj(p.obj, dag.add(p.off, C(i))), S(DBL, nz(x)))
        return S(INT, ZERO)
    cmp = {30: "gt", 14: "gt", 17: "lt", 1: "lt", 29: "ge", 13: "ge", 18: "le", 2: "le", 0: "eq"}

    def docmp(kind, x, y):
        return {"gt": lambda: dag.lt(y, x), "lt": lambda: dag.lt(x, y), "ge": lambda: dag.le(y, x), "le": lambda: dag.le(x, y), "eq": lambda: dag.eq(x, y)}[kind]()

    if op in ("cmp_pd", "cmp_pd_mask"):
        k = cmp.get(int(args[2].n.a[0]))
        if k is None:
            raise Inconclusive(f"{name} predicate {args[2].n}")
        return VecVal(dag.mk("mask", docmp(k, nz(x), nz(y))) for x, y in zip(vec(0), vec(1)))
    mm = re.fullmatch(r"cmp(gt|lt|ge|le|eq)_pd", op)
    if mm:
        return VecVal(dag.mk("mask", docmp(mm.group(1), nz(x), nz(y))) for x, y in zip(vec(0), vec(1)))
    if op == "mask_add_pd":
        return VecVal(dag.ite(k.a[0], dag.add(x, y), s) for s, k, x, y in zip(vec(0), vec(1), vec(2), vec(3)))
    if op in ("and_pd", "andnot_pd", "xor_pd", "or_pd"):
        return VecVal(bitop(op, x, y) for x, y in zip(vec(0), vec(1)))
    if op == "blendv_pd":
        return VecVal(dag.ite(k.a[0], y, x) for x, y, k in zip(vec(0), vec(1), vec(2)))
    if re.fullmatch(r"set1_epi64x?", op):
        return VecVal([dag.mk("bits", int(args[0].n.a[0]) & (2**64 - 1))] * w)
    if re.fullmatch(r"castsi\d+_pd", op):
        return args[0]
    if op == "castpd256_pd128":
        return VecVal(vec(0)[:2])
    if op == "extractf128_pd":
        k = int(args[1].n.a[0])
        return VecVal(vec(0)[2 * k : 2 * k + 2])
    if op == "cvtsd_f64":
        return S(DBL, vec(0)[0])
    if op == "unpackhi_pd" and w == 2:
        return VecVal([vec(0)[1], vec(1)[1]])
    if op == "unpacklo_pd" and w == 2:
        return VecVal([vec(0)[0], vec(1)[0]])
    if op == "hadd_pd" and w == 2:
        a, b = vec(0), vec(1)
        return VecVal([dag.add(a[0], a[1]), dag.add(b[0], b[1])])
    if op == "shuffle_pd" and w == 2:
        k = int(args[2].n.a[0])
        return VecVal([vec(0)[k & 1], vec(1)[(k >> 1) & 1]])
    if op == "reduce_add_pd":
        r = ZERO
        for x in vec(0):
            r = dag.add(r, x)
        return S(DBL, r)
    return NotImplemented


SIGN = 1 << 63


def bitop(op, x, y):
    def bits(n):
        if n is NEGZERO:
            return SIGN
        if n is ZERO:
            return 0
        if n.op == "bits":
            return n.a[0]
        return None

    bx, by = bits(x), bits(y)
    if op == "andnot_pd":
        if bx is not None:
            bx = ~bx & (2**64 - 1)
            op = "and_pd"
        elif x.op == "mask":
            x = dag.mk("mask", dag.not_(x.a[0]))
            op = "and_pd"
        else:
            raise Inconclusive("andnot")
    for p, bp, q in ((x, bx, y), (y, by, x)):
        if op == "and_pd":
            if bp == SIGN - 1:
                return dag.fn("fabs", nz(q))
            if bp == 2**64 - 1:
                return q
            if bp == 0:
                return ZERO
            if p.op == "mask":
                return dag.ite(p.a[0], q, ZERO)
        if op == "xor_pd" and bp == SIGN:
            return dag.neg(q)
        if op in ("xor_pd", "or_pd") and bp == 0:
            return q
    raise Inconclusive(f"bit operation {op} on {x} {y}")


def explore(run, feasible=None, max_paths=4096):
    """Enumerate paths of run(decide): yields (path condition list, result). feasible(list of conds)->bool."""
    prefix = []
    paths = 0
    while True:
        taken = []

        def decide(cond):
            i = len(taken)
            for c, b, _ in taken:
                if c is cond:
                    return b
                if c is dag.not_(cond):
                    return not b
            if i < len(prefix):
                b, alt = prefix[i]
                taken.append((cond, b, alt))
                return b
            pc = [c if b else dag.not_(c) for c, b, _ in taken]
            ft = feasible is None or feasible(pc + [cond])
            ff = feasible is None or feasible(pc + [dag.not_(cond)])
            if ft and ff:
                taken.append((cond, True, True))
                return True
            if not ft and not ff:
                raise Inconclusive("infeasible path")
            taken.append((cond, ft, False))
            return ft

        res = run(decide)
        paths += 1
        if paths > max_paths:
            raise Inconclusive("too many paths")
        yield [c if b else dag.not_(c) for c, b, _ in taken], res
        while taken and not taken[-1][2]:
            taken.pop()
        if not taken:
            return
        prefix = [(b, alt) for _, b, alt in taken[:-1]] + [(False, False)]
