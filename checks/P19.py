"""P19: parameter files and command line arguments set exactly what they say, or are rejected."""
import itertools
import os
import subprocess

from vlib import bhah, cexec, dag, strx
from vlib.core import QUICK, SEED, STATS, Check, Inconclusive, encoded, nrpy_call, report, sample, scratch, rmtree, unlimit
from vlib.dag import C, V, eq

S, INT, DBL, CHAR = cexec.S, cexec.INT, cexec.DBL, cexec.CHAR
FN = "cmdline_input_and_parfile_parser"
PROJ = "proj"
BASE = [("r", "REAL", 1.0), ("rr", "REAL", 2.5), ("n", "int", 3), ("s", "char[12]", "abc"), ("ra", "REAL[3]", 0.5), ("ia", "int[2]", 7)]
SETS = {
    "base": (BASE, ["rr", "n"]),
    "reversed": (BASE[::-1], ["n", "rr", "r"]),
    "bool": (BASE[:3] + [("b", "bool", True)], ["b", "n"]),
    "chars": ([("s", "char[12]", "abc"), ("long_s", "char[200]", "x"), ("n", "int", 1)], ["long_s", "n"]),
    "arrays": ([("n", "int", 1), ("ia", "int[2]", 2), ("ra", "REAL[33]", 0.25), ("r", "REAL", -1.5)], ["r"]),
    "one": ([("n", "int", 1)], []),
}


def setup(key, name):
    import nrpy.c_function as cfc
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import CodeParameters, cmdline_input_and_parfiles as cip

    encoded("register_CFunction_cmdline_input_and_parfile_parser (generated C)", "generate_default_parfile", "register_CFunctions_params_commondata_struct_set_to_default")
    par.set_parval_from_str("Infrastructure", "BHaH")
    params, steer = SETS[name]
    import nrpy.grid  # pylint: disable=unused-import

    par.glb_code_params_dict.clear()
    for nm, t, d in params:
        par.register_CodeParameter(t, "mod", nm, d, commondata=True, add_to_set_CodeParameters_h="[" not in t or "char" in t)
    cfc.CFunction_dict.clear()
    nrpy_call(key, cip.register_CFunction_cmdline_input_and_parfile_parser, PROJ, steer)
    nrpy_call(key, CodeParameters.register_CFunctions_params_commondata_struct_set_to_default)
    bhah.rfm_typedef()
    unit = bhah.Unit(key=key)
    d = scratch("par_")
    nrpy_call(key, cip.generate_default_parfile, d, PROJ)
    with open(f"{d}/{PROJ}.par", encoding="utf-8") as f:
        default = f.read()
    rmtree(d)
    src = unit.source([FN, "commondata_struct_set_to_default"])
    err = cexec.syntax_check(src, (), unit.incdirs)
    STATS.obligations += 1
    if err:
        report(key + ":compile", f"{key}: the generated parser does not compile: {[l for l in err.splitlines() if 'error' in l][:2]}", {"gcc": err})
        return None
    return unit, src, {nm: t for nm, t, _d in params}, steer, default


def split(t):
    if "[" in t:
        b, n = t.split("[")
        return b.strip(), int(n.rstrip("]"))
    return t, 0


class Unspecified(Exception):
    pass


class Error(Exception):
    pass


class Spec:
    """What a parameter file and argument list mean. test(cond) decides a condition, number(kind, chars) returns a node or None."""

    def __init__(self, params, test, number):
        self.params, self.test, self.number = params, test, number

    def isc(self, c, ch):
        return self.test(eq(c, C(ord(ch))))

    def trim(self, t):
        t = list(t)
        while t and self.test(strx.CLASS["isspace"](t[0])):
            t.pop(0)
        while t and self.test(strx.CLASS["isspace"](t[-1])):
            t.pop()
        return t

    def scalar(self, name, base, size, t):
        if base == "char":
            q0, q1 = (t and self.isc(t[0], '"')), (t and self.isc(t[-1], '"'))
            if q0 and q1 and len(t) >= 2:
                t = t[1:-1]
                if any(self.isc(c, '"') for c in t):
                    raise Unspecified()
            elif q0 or q1:
                raise Unspecified()
            if len(t) >= size:
                raise Error(f"{name} too long")
            return ("str", t)
        if base == "bool":
            low = [dag.add(c, C(32)) if self.test(strx.between(c, 65, 90)) else c for c in t]
            for w, v in (("true", 1), ("1", 1), ("false", 0), ("0", 0)):
                if len(w) == len(low) and all(self.isc(c, x) for c, x in zip(low, w)):
                    return ("int", C(v))
            raise Error(f"{name} not a boolean")
        v = self.number("int" if base == "int" else "real", t) if t else None
        if v is None:
            raise Error(f"{name} not a number")
        if base == "int" and not self.test(strx.between(v, -(2**31), 2**31 - 1)):
            raise Error(f"{name} outside the range of int")
        return (base, v)

    def line(self, t, out):
        for k, c in enumerate(t):
            if self.isc(c, "#"):
                t = t[:k]
                break
        es = next((k for k, c in enumerate(t) if self.isc(c, "=")), None)
        if es is None:
            if len(self.trim(t)) > 126:
                raise Unspecified()
            return
        name, rest = self.trim(t[:es]), t[es + 1 :]
        if not name or len(name) > 126 or not rest or any(self.isc(c, "=") for c in rest):
            raise Unspecified()
        value = self.trim(rest)
        if len(value) > 126:
            # beyond the stated token size: only arrays are required to work
            if not self.isc(value[0], "{"):
                raise Unspecified()
        idx = None
        b = next((k for k, c in enumerate(name) if self.isc(c, "[")), None)
        if b is not None:
            e = next((k for k in range(b + 1, len(name)) if self.isc(name[k], "]")), None)
            if e is None:
                raise Error("no closing bracket")
            if e != len(name) - 1 or e == b + 1 or e - b > 10 or not all(self.test(strx.between(c, 48, 57)) for c in name[b + 1 : e]):
                raise Unspecified()
            idx = C(0)
            for c in name[b + 1 : e]:
                idx = dag.add(dag.mul(idx, C(10)), dag.sub(c, C(48)))
            name = name[:b]
            if not name:
                raise Unspecified()
            if self.test(eq(idx, C(0))):
                raise Error("array size 0")
        for c in name:
            if not self.test(strx.CLASS["isalnum"](c)) and not self.isc(c, "_"):
                raise Error("bad character in name")
        who = next((p for p in self.params if len(p) == len(name) and all(self.isc(c, x) for c, x in zip(name, p))), None)
        elems, braces = [value], False
        if value and self.isc(value[0], "{"):
            if not self.isc(value[-1], "}"):
                raise Error("no closing brace")
            braces = True
            elems, cur = [], []
            for c in value[1:-1]:
                if self.isc(c, ","):
                    elems.append(cur)
                    cur = []
                else:
                    cur.append(c)
            elems = [self.trim(x) for x in elems + [cur]]
            if any(not x or len(x) > 126 for x in elems) or len(elems) > 100:
                raise Unspecified()
        if who is None:
            return
        if who in out:
            raise Error("duplicate")
        base, size = split(self.params[who])
        if size and base != "char":
            if idx is None or not self.test(eq(idx, C(size))) or len(elems) != size:
                raise Error("array size")
            out[who] = [self.scalar(who, base, 0, x) for x in elems]
            return
        if idx is not None or len(elems) != 1:
            raise Error("array given for a scalar")
        if braces:
            raise Unspecified()
        out[who] = self.scalar(who, base, size, elems[0])

    def run(self, lines, steer=(), args=None):
        """-> ('error', why) | ('set', {name: value}) ; raises Unspecified."""
        out = {}
        try:
            for t in lines:
                self.line(t, out)
            for k, t in zip(steer, args or []):
                base, size = split(self.params[k])
                if len(t) > 126:
                    raise Unspecified()
                out[k] = self.scalar(k, base, size, t)
        except Error as e:
            return ("error", str(e))
        return ("set", out)


# ---------------------------------------------------------------- symbolic side
def chars(tpl, tag):
    """Template -> nodes. '\\1' = any character, '\\2' = any whitespace except newline, '\\3' = a digit."""
    out, dom = [], {}
    for k, ch in enumerate(tpl):
        if ch in "\1\2\3":
            nm = f"ch{tag}_{k}"
            dom[nm] = ch
            out.append(V(nm))
        else:
            out.append(C(ord(ch)))
    return out, dom


def scenario(arg):
    setname, cases = arg
    key = f"parser:{setname}"
    st = setup(key, setname)
    if st is None:
        return
    unit, src, params, steer, default = st
    try:
        program(unit, src, params)
    except Inconclusive as e:
        report(key + ":link", f"{key}: the generated parser does not link: {str(e)[-300:]}")
        rmtree(unit.dir)
        return
    ex = strx.PathExec(src, unit.incdirs)
    try:
        for label, files, argv in cases:
            one(key, label, files, argv, unit, src, ex, params, steer)
    finally:
        rmtree(unit.dir)


def domain_of(doms):
    def f(n):
        if n in doms:
            return -128, 127
        if n.startswith(("val:int:", "huge:int:", "junk:int:")):
            return -(2**63), 2**63 - 1
        if n.startswith(("ok:", "rng:", "part:", "exists:")):
            return 0, 1
        return None, None

    return f


def fresh(ex, params):
    cd = ex.newobj(ex.typedefs["commondata_struct"], "commondata")
    init = {}
    for f, ft in cd.t.fields.items():
        o = cd.field(f)
        if isinstance(o, cexec.Arr):
            n = o.n
            for k in range(n):
                o.conc[k] = S(o.elem, V(f"old:{f}[{k}]"))
            init[f] = [V(f"old:{f}[{k}]") for k in range(n)]
        else:
            o.v = S(o.t, V(f"old:{f}"))
            init[f] = V(f"old:{f}")
    return cd, init


def state(ex, cd):
    out = {}
    for f in cd.t.fields:
        o = cd.field(f)
        out[f] = [ex.read(ex.elem_obj(o, C(k))).n for k in range(o.n)] if isinstance(o, cexec.Arr) else o.v.n
    return out


def one(key, label, files, argv, unit, src, ex, params, steer):
    doms, flist = {}, {}
    pre = []
    for fi, (fname, (lines, exists)) in enumerate(files.items()):
        ls = []
        for li, t in enumerate(lines):
            cs, d = chars(t, f"{fi}{li}")
            doms.update(d)
            ls.append(cs)
        flist[fname] = (ls, exists)
    av = []
    for ai, t in enumerate(argv):
        cs, d = chars(t, f"a{ai}")
        doms.update(d)
        av.append(cs)
    for n, ch in doms.items():
        v = V(n)
        pre.append(dag.not_(dag.or_(eq(v, C(0)), eq(v, C(10)))))
        if ch == "\2":
            pre.append(strx.CLASS["isspace"](v))
        if ch == "\3":
            pre.append(strx.between(v, 48, 57))
    fe = strx.Feasible(domain_of(doms))

    def run(decide):
        ex.reset()
        ex.decide = decide
        for c in pre:
            decide(c)
        ex.fs = {n: ([t + [C(10)] for t in ls], e) for n, (ls, e) in flist.items()}
        cd, init = fresh(ex, params)
        args = cexec.Arr(ex, cexec.T("ptr", elem=CHAR), "argv", len(av) + 1)
        for k, t in enumerate([[C(ord(c)) for c in "./" + PROJ]] + av):
            a = cexec.Arr(ex, CHAR, f"argv{k}", len(t) + 1)
            for j, c in enumerate(t + [C(0)]):
                a.conc[j] = S(CHAR, c)
            args.conc[k] = cexec.P(a, dag.ZERO, cexec.T("ptr", elem=CHAR))
        try:
            ex.call(FN, [cexec.P(cd), S(INT, C(len(av) + 1)), args])
            got = ("set", state(ex, cd))
        except strx.Exit as e:
            got = ("exit", e.code)
        except cexec.ExecError as e:
            got = ("crash", str(e))
        return got, expected(ex, params, steer, flist, av), init

    npaths = 0
    for pc, (got, want, init) in cexec.explore(run, lambda c: fe(pre_first(pre, c)), max_paths=60000):
        npaths += 1
        STATS.obligations += 1
        bad, extra = compare(got, want, init, params, fe, pc)
        if bad:
            m = fe.model(pre + pc, extra)
            if m is None:
                continue
            k = f"{key}:{label}"
            r = replay(unit, src, files, argv, params, steer, m, "uninitialised" in bad)
            if r[0]:
                report(k, f"{k}: {bad}; input {r[1]!r}: {r[0]}", {"files": {n: repr(f) for n, f in r[2].items()}, "argv": repr(r[3])})
                return
            raise Inconclusive(f"{k}: {bad}: the compiled code does not show it ({r[1]!r})")
    sample({"case": f"{key}:{label}", "paths": npaths})


def pre_first(pre, conds):
    return pre + conds if conds[-1] not in pre else conds


def expected(ex, params, steer, flist, av):
    """Meaning of the whole invocation."""
    test = lambda c: ex.truth(ex.b2i(c))

    def number(kind, t):
        o = strx.number(ex, kind, t, None, None, None)
        return V(f"val:{kind}:{strx._tokname(t)}") if o == "ok" else None

    sp = Spec(params, test, number)

    def exists(t):
        nm = strx._tokname(t)
        if nm not in flist:
            return False
        return flist[nm][1] is True or ex.decide(eq(V("exists:" + nm), C(1)))

    C_ = lambda s: [C(ord(c)) for c in s]
    n = len(steer)
    if len(av) == 1 and strx._tokname(av[0]) in ("-h", "--help"):
        return ("help",)
    default = C_(PROJ + ".par")
    try:
        if not av:
            f, args = default, None
        elif len(av) == 1 and exists(av[0]):
            f, args = av[0], None
        elif n and len(av) == n:
            f, args = default, av
        elif n and len(av) == n + 1 and exists(av[0]):
            f, args = av[0], av[1:]
        else:
            return ("error", "arguments")
        if not exists(f):
            return ("error", "no parameter file")
        return sp.run(flist[strx._tokname(f)][0], steer, args)
    except Unspecified:
        return ("any",)


def compare(got, want, init, params, fe, pc):
    """-> (description or None, extra conditions for the model)."""
    if got[0] == "crash":
        return f"undefined behaviour: {got[1]}", []
    if want[0] == "any":
        return None, []
    if want[0] == "help":
        return (None if got[0] == "exit" else "help did not exit"), []
    if want[0] == "error":
        if got[0] != "exit":
            return f"input is accepted although: {want[1]}", []
        return ("error reported with status 0" if got[1] is C(0) else None), []
    if got[0] == "exit":
        return "well-formed input is rejected", []
    new = got[1]
    for f, old in init.items():
        if f not in want[1]:
            w = old
        else:
            v = want[1][f]
            if isinstance(v, list):
                w = [x[1] for x in v]
            elif v[0] == "str":
                g = new[f][: len(v[1]) + 1]
                for a, b in zip(g, v[1] + [C(0)]):
                    if a is not b:
                        r = fe.model(pc, [dag.not_(eq(a, b))])
                        if r is not None:
                            return f"string parameter {f} is not the text given", [dag.not_(eq(a, b))]
                continue
            else:
                w = v[1]
        ws = w if isinstance(w, list) else [w]
        gs = new[f] if isinstance(w, list) else [new[f]]
        for k, (a, b) in enumerate(zip(gs, ws)):
            if a is b:
                continue
            what = f"{f}[{k}]" if isinstance(w, list) else f
            if "real" in str(b.a[0]) or "old:" in str(b.a[0]):
                return f"{what} is {dag.show(a)} instead of {dag.show(b)}", []
            c = dag.not_(eq(a, b))
            if fe.model(pc, [c]) is not None:
                return f"{what} is {dag.show(a)} instead of {dag.show(b)}", [c]
    return None, []


# ---------------------------------------------------------------- concrete side
def concrete_number(kind, t):
    s = "".join(chr(int(c.a[0])) for c in t)
    try:
        if kind == "int":
            import re

            return C(int(s)) if re.fullmatch(r"[+-]?\d+", s) and abs(int(s)) < 2**63 else None
        v = float(s)
        return C(dag.Fraction(v)) if abs(v) < 1e300 and "_" not in s else None
    except ValueError:
        return None


def fill(t, m, tag):
    """Template text with the model's characters, and number tokens replaced by the model's numbers."""
    out = []
    for k, ch in enumerate(t):
        out.append(chr(m.get(f"ch{tag}_{k}", {"\2": 32, "\3": 49}.get(ch, 97)) % 256) if ch in "\1\2\3" else ch)
    s = "".join(out)
    toks = {n.split(":", 2)[2]: n.split(":", 2)[1] for n in m if n.startswith(("val:", "ok:", "rng:"))}
    reals = {}
    import re

    def rep(mo):
        w = mo.group(0)
        k = toks.get(w)
        if k is None:
            return w
        if m.get(f"ok:{k}:{w}", 1) != 1:
            return "x" + w
        if m.get(f"rng:{k}:{w}", 0) != 0:
            return "9" * 25 if k == "int" else "1e999"
        if k == "int":
            return str(m.get(f"val:int:{w}", int(w)))
        return str(float(w) + 0.25)

    if not toks:
        return s
    head, sep, tail = s.partition("=") if tag[0] != "a" else ("", "", s)
    return head + sep + re.sub(r"(?<![\w.])\d+(?![\w.])", rep, tail)


DRIVER = """
#include <unistd.h>
int main(int argc, const char *argv[]) {
  commondata_struct cd; memset(&cd, 0, sizeof(cd));
%s
  if (argc > 1 && strcmp(argv[1], "--defaults") == 0) { commondata_struct_set_to_default(&cd); } else
  cmdline_input_and_parfile_parser(&cd, argc, argv);
%s
  return 0;
}
"""
OLD = {"REAL": -77.5, "int": -77, "bool": 1, "char": "old"}


def program(unit, src, params):
    init, show = "", ""
    for nm, t in params.items():
        b, n = split(t)
        if b == "char":
            init += f'  strcpy(cd.{nm}, "old");\n'
            show += f'  printf("{nm} s "); for (const char *q = cd.{nm}; *q; q++) printf("%d,", (int)*q); printf("\\n");\n'
        elif n:
            init += f"  for (int i = 0; i < {n}; i++) cd.{nm}[i] = {OLD[b]};\n"
            show += f'  printf("{nm} a "); for (int i = 0; i < {n}; i++) printf("%.17g,", (double)cd.{nm}[i]); printf("\\n");\n'
        else:
            init += f"  cd.{nm} = {OLD[b]};\n"
            show += f'  printf("{nm} v %.17g\\n", (double)cd.{nm});\n'
    p = unit.dir + "/sub/drv.c"
    exe = unit.dir + "/drv"
    with open(p, "w", encoding="utf-8") as f:
        f.write(src + DRIVER % (init, show))
    if not os.path.exists(exe):
        r = subprocess.run(["gcc", "-std=gnu99", "-w", "-g", "-O0", "-D_GNU_SOURCE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + ["-I" + x for x in unit.incdirs] + [p, "-lm", "-o", exe], capture_output=True, text=True, check=False)
        if r.returncode:
            raise Inconclusive("replay driver does not compile: " + r.stderr[:300])
    return exe


def native(exe, files, argv):
    d = scratch("run_")
    try:
        for n, ls in files.items():
            with open(d + "/" + n, "wb") as f:
                f.write("".join(x + "\n" for x in ls).encode("latin-1"))
        r = subprocess.run([exe] + [a.encode("latin-1") for a in argv], cwd=d, capture_output=True, check=False, timeout=60, preexec_fn=unlimit, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99"))
    finally:
        rmtree(d)
    err = r.stderr.decode("latin-1")
    if "AddressSanitizer" in err or "runtime error" in err:
        return ("crash", next((l for l in err.splitlines() if "ERROR" in l or "runtime error" in l), "")[:160])
    if r.returncode:
        return ("exit", r.returncode)
    out = {}
    for l in r.stdout.decode("latin-1").splitlines():
        a = l.split(" ", 2)
        if len(a) < 2:
            return ("exit", 0)
        v = a[2] if len(a) > 2 else ""
        out[a[0]] = [int(x) for x in v.split(",") if x] if a[1] == "s" else [float(x) for x in v.split(",") if x] if a[1] == "a" else float(v)
    return ("set", out) if out else ("exit", 0)


def concrete_expected(files, argv, params, steer):
    test = lambda c: c is dag.TRUE
    sp = Spec(params, test, concrete_number)
    enc = lambda s: [C((ord(c) + 128) % 256 - 128) for c in s]

    class E:
        pass

    ex = E()
    ex.truth = lambda s: s is dag.TRUE
    n = len(steer)
    try:
        if len(argv) == 1 and argv[0] in ("-h", "--help"):
            return ("help",)
        if not argv:
            f, args = PROJ + ".par", None
        elif len(argv) == 1 and argv[0] in files:
            f, args = argv[0], None
        elif n and len(argv) == n:
            f, args = PROJ + ".par", argv
        elif n and len(argv) == n + 1 and argv[0] in files:
            f, args = argv[0], argv[1:]
        else:
            return ("error", "arguments")
        if f not in files:
            return ("error", "no parameter file")
        return sp.run([enc(x) for x in files[f]], steer, None if args is None else [enc(a) for a in args])
    except Unspecified:
        return ("any",)


def judge(got, want, params):
    if got[0] == "crash":
        return got[1]
    if want[0] == "any":
        return None
    if want[0] == "help":
        return None if got == ("exit", 0) else f"help: {got}"
    if want[0] == "error":
        return None if got[0] == "exit" and got[1] != 0 else f"accepted although: {want[1]}"
    if got[0] == "exit":
        return f"rejected (status {got[1]})"
    for nm, t in params.items():
        b, n = split(t)
        v = want[1].get(nm)
        if v is None:
            w = [ord(c) for c in "old"] if b == "char" else [float(OLD[b])] * n if n else float(OLD[b])
        elif isinstance(v, list):
            w = [float(x[1].a[0]) for x in v]
        elif v[0] == "str":
            w = [int(c.a[0]) for c in v[1]]
        else:
            w = float(v[1].a[0])
        if got[1].get(nm) != w:
            return f"{nm} is {str(got[1].get(nm))[:80]}, expected {str(w)[:80]}"
    return None


def memcheck(unit, files, argv):
    """Uninitialised reads, which the sanitizers do not see."""
    exe, d = unit.dir + "/drv_vg", scratch("run_")
    try:
        r = subprocess.run(["gcc", "-std=gnu99", "-w", "-g", "-O0", "-D_GNU_SOURCE"] + ["-I" + x for x in unit.incdirs] + [unit.dir + "/sub/drv.c", "-lm", "-o", exe], capture_output=True, text=True, check=False)
        if r.returncode:
            return None
        for n, ls in files.items():
            with open(d + "/" + n, "wb") as f:
                f.write("".join(x + "\n" for x in ls).encode("latin-1"))
        r = subprocess.run(["valgrind", "-q", "--error-exitcode=97", exe] + [a.encode("latin-1") for a in argv], cwd=d, capture_output=True, check=False, timeout=120, preexec_fn=unlimit)
    except (OSError, subprocess.TimeoutExpired):
        return None
    finally:
        rmtree(d)
    err = [l for l in r.stderr.decode("latin-1").splitlines() if "ninitialised" in l]
    return ("crash", err[0][:160]) if r.returncode == 97 and err else None


def replay(unit, src, files, argv, params, steer, m, uninit=False):
    fs = {}
    for fi, (n, (lines, exists)) in enumerate(files.items()):
        if exists is True or m.get("exists:" + n, 1) == 1:
            fs[n] = [fill(t, m, f"{fi}{li}") for li, t in enumerate(lines)]
    av = [fill(t, m, f"a{ai}") for ai, t in enumerate(argv)]
    exe = program(unit, src, params)
    got = native(exe, fs, av)
    want = concrete_expected(fs, av, params, steer)
    if uninit and got[0] != "crash":
        got = memcheck(unit, fs, av) or got
    return judge(got, want, params), (list(fs.values())[0] if fs else [], av), fs, av


def roundtrip(setname):
    """Parsing the generated default parameter file equals setting the defaults."""
    key = f"parser:{setname}"
    st = setup(key, setname)
    if st is None:
        return
    unit, src, params, _steer, default = st
    ex = strx.PathExec(src, unit.incdirs)
    res = []
    try:
        exe = program(unit, src, params)
        for mode in (0, 1):
            ex.reset()
            ex.exact = True
            ex.fs = {PROJ + ".par": ([[C(ord(c)) for c in t + "\n"] for t in default.splitlines()], True)}
            cd, _init = fresh(ex, params)
            try:
                if mode:
                    ex.call("commondata_struct_set_to_default", [cexec.P(cd)])
                else:
                    ex.call(FN, [cexec.P(cd), S(INT, C(1)), cexec.Arr(ex, cexec.T("ptr", elem=CHAR), "argv", 1)])
                res.append(("set", state(ex, cd)))
            except strx.Exit as e:
                res.append(("exit", e.code))
            except cexec.ExecError as e:
                res.append(("crash", str(e)))
        bad = None
        if res[0][0] != "set":
            bad = f"the generated default parameter file is not accepted ({res[0][0]})"
        elif res[1][0] != "set":
            bad = "setting the defaults fails"
        else:
            for nm, t in params.items():
                STATS.obligations += 1
                a, b = res[0][1][nm], res[1][1][nm]
                if split(t)[0] == "char":
                    a, b = ([x[: x.index(C(0))] if C(0) in x else x for x in (a, b)])
                if a != b:
                    bad = f"{nm}: the parameter file gives {str(a)[:60]}, the default is {str(b)[:60]}"
        if bad:
            a = native(exe, {PROJ + ".par": default.splitlines()}, [])
            b = native(exe, {}, ["--defaults"])
            if a == b and a[0] == "set":
                raise Inconclusive(f"{key}: {bad} (compiled code agrees)")
            report(key + ":default", f"{key}: {bad}", {"parfile": default, "compiled": [str(a)[:500], str(b)[:500]]})
    finally:
        rmtree(unit.dir)


# ---------------------------------------------------------------- cases
A, W, D = "\1", "\2", "\3"


def par1(*lines):
    return {PROJ + ".par": (list(lines), True)}


def lines_for(params):
    out = {}
    k = 17
    for nm, t in params.items():
        b, n = split(t)
        if b == "char":
            out[nm] = f'{nm} = "text"'
        elif b == "bool":
            out[nm] = f"{nm} = false"
        elif n:
            out[nm] = f"{nm}[{n}] = {{ " + ", ".join(str(k + j) for j in range(n)) + " }"
            k += n
        else:
            out[nm] = f"{nm} = {k}"
            k += 1
    return out


def cases_for(name):
    params = {n: t for n, t, _d in SETS[name][0]}
    steer = SETS[name][1]
    ln = lines_for(params)
    out = []
    for nm, t in ln.items():
        out.append((f"set-{nm}", par1(t), []))
    for a, b in itertools.product(ln, ln):
        if (a <= b or not QUICK) and name in ("base", "bool"):
            out.append((f"two-{a}-{b}", par1(ln[a], ln[b].replace("17", "41").replace("text", "word")), []))
    out.append(("all", par1("# comment", "", *ln.values()), []))
    out.append(("all-reversed", par1(*list(ln.values())[::-1]), []))
    out.append(("empty", par1(), []))
    # command line: any number of arguments, any combination of existing files
    nums = ["31", "32", "33", "34", "35"]
    sargs = []
    for k, s in enumerate(steer):
        b, _n = split(params[s])
        sargs.append('"tex' + A + '"' if b == "char" else "tru" + A if b == "bool" else nums[k])
    body = [t for t in ln.values() if len(t) < 60]
    for lines in (body, [], ["# only a comment"], ["unknown = 5"], body[:1]):
        fs = {PROJ + ".par": (lines, None), "other.par": ([body[-1]], None)}
        tag = len(out)
        out.append((f"args-none-{tag}", fs, []))
        out.append((f"args-file-{tag}", fs, ["other.par"]))
        out.append((f"args-missing-{tag}", fs, ["absent.par"]))
        if steer:
            out.append((f"args-steer-{tag}", fs, sargs))
            out.append((f"args-file-steer-{tag}", fs, ["other.par"] + sargs))
            out.append((f"args-many-{tag}", fs, ["other.par"] + sargs + ["1"]))
            out.append((f"args-few-{tag}", fs, sargs[:-1]))
    out.append(("help", par1(*body), ["-h"]))
    out.append(("help2", par1(*body), ["--help"]))
    if name == "base":
        ws = [f"{W}n{W}={W}17{W}#{A}{A}", f"n=17{W}{W}", f"n{W}=17#{A}", f"{W}{W}r{W}={W}17", f"n=17#=5", f"{W}#n = 17", f"n = 17 # {A}{A}{A}"]
        out += [(f"ws{k}", par1(t), []) for k, t in enumerate(ws)]
        out += [(f"name{k}", par1(A * k + " = 17"), []) for k in ((1, 2) if QUICK else (1, 2, 3))]
        out += [(f"namearr{k}", par1(A * k + "[2] = {17, 18}"), []) for k in (1, 2)]
        out += [("suffix", par1(f"r{A} = 17"), []), ("prefix", par1(f"{A}r = 17"), []), ("rr", par1(f"rr{A} = 17"), []), ("underscore", par1(f"r_{A} = 17", "rr = 18"), [])]
        for k in (0, 1, 3, 10, 11, 12, 13):
            out.append((f"quoted{k}", par1('s = "' + "a" * max(0, k - 3) + A * min(k, 3) + '"'), []))
        for k in (1, 2, 3):
            out.append((f"bare{k}", par1("s = " + A * k), []))
        out.append(("bare11", par1("s = abcdefghij" + A), []))
        out.append(("bare12", par1("s = abcdefghijk" + A), []))
        out += [(f"index{k}", par1(f"ra[{D * k}] = {{17, 18, 19}}"), []) for k in (1, 2)]
        out += [(f"indexany{k}", par1(f"ra[{A * k}] = {{17, 18, 19}}"), []) for k in (1,)]
        out += [(f"zeros{z}", par1(f"ra[{'0' * z}{D}] = {{17, 18, 19}}"), []) for z in (1, 5, 12, 14, 15, 16, 20, 60)]
        out += [("noclose", par1(f"ra[3{A} = 17"), []), ("sizeonscalar", par1(f"n[{D}] = 17"), []), ("nosize", par1("ra = {17, 18, 19}"), [])]
        for k in (1, 2, 3, 4, 5):
            out.append((f"count{k}", par1("ra[3] = {" + ",".join(str(17 + j) for j in range(k)) + "}"), []))
            out.append((f"icount{k}", par1("ia[2] = {" + ",".join(str(17 + j) for j in range(k)) + "}"), []))
        out.append(("arrws", par1(f"ra[3]{W}={W}{{{W}17{W},{W}18,19{W}}}{W}"), []))
        out.append(("brace", par1(f"ra[3] = {{17, 18, 19{A}"), []))
        out.append(("scalararr", par1("n = {17, 18}"), []))
        for k in (1, 2, 3, 4) if QUICK else (1, 2, 3, 4, 5):
            out.append((f"free{k}", par1(A * k), []))
            out.append((f"freeval{k}", par1("ra[3]=" + A * min(k, 3)), []))
        for k in (120, 125, 126, 127, 128, 129, 140, 400):
            out.append((f"longval{k}", par1("n = " + "a" * (k - 1) + A), []))
            out.append((f"longname{k}", par1("a" * (k - 1) + A + " = 17"), []))
            out.append((f"longquoted{k}", par1('s = "' + "a" * k + '"'), []))
            out.append((f"longindex{k}", par1("ra[" + "a" * k + "] = 17"), []))
        for k in (30, 60, 62, 63, 64, 99, 100, 101, 120):
            out.append((f"manyvals{k}", par1("ra[3] = {" + "1," * (k - 1) + "1}"), []))
    if name == "bool":
        for w in ("true", "TRUE", "True", "false", "0", "1", "2", "tru", "truee", "yes"):
            out.append((f"bool-{w}", par1(f"b = {w}"), []))
        out.append(("bool-sym", par1(f"b = tr{A}{A}"), []))
        out.append(("bool-one", par1(f"b = {A}"), []))
    if name == "chars":
        for k in (0, 1, 100, 125, 126, 127, 128, 150, 198, 199, 200, 250):
            out.append((f"cmdq{k}", par1(), ['"' + "a" * k + '"', "31"]))
            out.append((f"cmdb{k}", par1(), ["a" * k + A, "31"]))
            out.append((f"file{k}", par1('long_s = "' + "a" * k + '"'), []))
    return out


def main():
    ck = Check(
        "P19",
        "other",
        assumptions=["strtol, strtod and the string functions behave as the C standard says; the number a text denotes is left open, so every outcome is covered", "a '#' starts a comment, a second '=' in a line is outside the format"],
        bounds="six parameter sets; files of up to eight lines; up to four unconstrained characters per line in the quick tier, five in the thorough tier, at every position of interest; tokens of up to 400 characters; up to 120 array values; all argument counts and file-existence combinations",
        explanation="The generated parser runs path by path on symbolic characters and uninterpreted numbers; z3 decides branch feasibility and the equality of every parameter with a specification executed on the same symbols; counterexamples are written to a file and parsed by the compiled code under ASAN",
    )
    cases = []
    for n in SETS:
        cs = cases_for(n)
        cases.append((f"{n}-default", roundtrip, n))
        step = max(1, len(cs) // 12)
        for k in range(0, len(cs), step):
            cases.append((f"{n}-{k}", scenario, (n, cs[k : k + step])))
    ck.run(cases, timeout=600)
    ck.finish()


if __name__ == "__main__":
    main()
