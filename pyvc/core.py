"""pyvc.core: SMT vocabulary, path exploration, obligations, quantifier-free universals.

Every VC is a quantifier-free formula over an uninterpreted sort V of Python values with observer
functions (kind, b, i, r, s, len, at, key, val, idx, mem, fld_*).  Universally quantified facts about
collections (loop summaries) are kept as `Univ` objects and instantiated at every registered index term
of their base collection.
"""
import time
import z3

V = z3.DeclareSort("V")
I, B, S, R = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()

KINDS = ["NONE", "BOOL", "INT", "FLOAT", "STR", "LIST", "TUPLE", "DICT", "SET", "BYTES", "FUNC", "FUT",
         "OBJ", "STRUCT", "LISTVALUE", "CLASS"]
for _i, _k in enumerate(KINDS):
    globals()[_k] = _i
NK = len(KINDS)
NONE, BOOL, INT, FLOAT, STR, LIST, TUPLE, DICT, SET, BYTES, FUNC, FUT, OBJ, STRUCT, LISTVALUE, CLASS = range(NK)

F = z3.Function
kind = F("kind", V, I)
f_b = F("b", V, B)
f_i = F("i", V, I)
f_r = F("r", V, R)
f_s = F("s", V, S)
f_len = F("len", V, I)
f_at = F("at", V, I, V)
f_key = F("key", V, I, V)
f_val = F("val", V, I, V)
f_idx = F("idx", V, V, I)
f_mem = F("mem", V, V, B)
mkS = F("mkS", S, V)
mkI = F("mkI", I, V)
mkR = F("mkR", R, V)
vNone = z3.Const("vNone", V)
vTrue = z3.Const("vTrue", V)
vFalse = z3.Const("vFalse", V)
BASE_FACTS = [kind(vNone) == NONE, kind(vTrue) == BOOL, kind(vFalse) == BOOL, f_b(vTrue), z3.Not(f_b(vFalse)),
              vNone != vTrue, vNone != vFalse, vTrue != vFalse]

_funcs = {}


def ufunc(name, *sorts):
    k = (name,) + tuple(str(x) for x in sorts)
    if k not in _funcs:
        _funcs[k] = F(name, *sorts)
    return _funcs[k]


class Unsupported(Exception):
    """The verifier cannot handle a construct: the obligation stays undischarged."""


class PathDead(Exception):
    pass


class Budget(Exception):
    pass


class Base:
    """A collection of symbolic length: index i ranges over 0 <= i < n."""
    __slots__ = ("tag", "term", "n")

    def __init__(self, tag, term, n):
        self.tag, self.term, self.n = tag, term, n

    @property
    def key(self):
        return (self.tag, self.term.get_id(), self.n.get_id() if self.tag == "range" else 0)

    def subst(self, pairs):
        return Base(self.tag, z3.substitute(self.term, *pairs), z3.substitute(self.n, *pairs))


class Univ:
    """forall j in base. formulas(j).  instance(j) -> (formulas, univs, indices)"""

    def __init__(self, base, instance, label=""):
        self.base, self.instance, self.label = base, instance, label

    def subst(self, pairs, guard=None):
        inner = self

        def inst(j):
            fs, us, ix = inner.instance(j)
            fs = [z3.substitute(f, *pairs) for f in fs]
            if guard is not None:
                fs = [z3.Implies(guard, f) for f in fs]
            return fs, [u.subst(pairs, guard) for u in us], [(b.subst(pairs), z3.substitute(t, *pairs)) for b, t in ix]

        return Univ(self.base.subst(pairs), inst, self.label)


class Frame:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []   # (choice, remaining alternatives)
        self.decs = []
        self.facts = []
        self.univs = []
        self.indices = []
        self.labels = []


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "detail", "path")

    def __init__(self, name, status, backend, t, detail="", path=None):
        self.name, self.status, self.backend, self.time, self.detail, self.path = name, status, backend, t, detail, path


class Ctx:
    def __init__(self, timeout_ms=4000, max_paths=6000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.solver.add(*BASE_FACTS)
        self.base_facts = list(BASE_FACTS)
        self.journal = []
        self.frames = []
        self.iotas = []
        self.nfresh = 0
        self.obligations = []
        self.univs = {}
        self.indices = {}
        self.declared = set()
        self.solver_time = 0.0
        self.checks = 0
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.unknowns = 0
        self.assumptions = set()
        self.asserted = []
        self.textfacts = []      # facts only used when strings are cut

    # ---- journaling -------------------------------------------------------------------------
    def rollback(self, mark):
        j = self.journal
        while len(j) > mark:
            j.pop()()

    def jset(self, obj, attr, new):
        old = getattr(obj, attr)
        self.journal.append(lambda: setattr(obj, attr, old))
        setattr(obj, attr, new)

    def jdict(self, d, k, new):
        if k in d:
            old = d[k]
            self.journal.append(lambda: d.__setitem__(k, old))
        else:
            self.journal.append(lambda: d.pop(k, None))
        d[k] = new

    def jdel(self, d, k):
        old = d[k]
        self.journal.append(lambda: d.__setitem__(k, old))
        del d[k]

    def jappend(self, lst, x):
        lst.append(x)
        self.journal.append(lambda: lst.pop())

    def jadd(self, st, x):
        if x not in st:
            st.add(x)
            self.journal.append(lambda: st.discard(x))

    # ---- fresh symbols ----------------------------------------------------------------------
    def fresh(self, name, sort):
        self.nfresh += 1
        nm = f"{name}!{self.nfresh}"
        if self.iotas:
            return z3.Function(nm, *([I] * len(self.iotas)), sort)(*self.iotas)
        return z3.Const(nm, sort)

    # ---- assertions -------------------------------------------------------------------------
    def _add(self, f):
        self.solver.add(f)
        self.asserted.append(f)
        self.journal.append(lambda: self.asserted.pop())

    def fact(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        self._add(f)
        if self.frames:
            self.frames[-1].facts.append(f)

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def check(self, *fs):
        self.tick()
        t = time.time()
        self.checks += 1
        if fs:
            self.solver.push()
            self.solver.add(*fs)
        r = self.solver.check()
        m = None
        if fs:
            self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def entails(self, f):
        if f is True:
            return True
        if f is False:
            return False
        return self.check(z3.Not(f)) == z3.unsat

    def feasible(self, f):
        return self.check(f) != z3.unsat

    # ---- decisions --------------------------------------------------------------------------
    def decide(self, conds, labels=None):
        """Fork on an exhaustive list of conditions; returns the index chosen on this path."""
        fr = self.frames[-1]
        pos = len(fr.trace)
        if pos < len(fr.prefix):
            c = fr.prefix[pos]
            forced = False
            fr.trace.append((c, []))
        else:
            feas = []
            for k, cnd in enumerate(conds):
                if cnd is True:
                    feas.append(k)
                elif cnd is False:
                    continue
                elif k == len(conds) - 1 and not feas:
                    # exhaustive: the last one must hold (still check that the path itself is alive)
                    if self.check(cnd) != z3.unsat:
                        feas.append(k)
                elif self.check(cnd) != z3.unsat:
                    feas.append(k)
            if not feas:
                raise PathDead()
            c = feas[0]
            fr.trace.append((c, feas[1:]))
            if len(feas) > 1:
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Budget("too many paths")
        cnd = conds[c]
        if cnd is not True:
            self._add(cnd)
            fr.decs.append(cnd)
        if labels:
            fr.labels.append(labels[c])
        return c

    def branch(self, cond, label=None):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.decide([cond, z3.Not(cond)], None if label is None else [label, "not " + label]) == 0

    def explore(self, fn, on_end):
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            fr = Frame(prefix)
            mark = len(self.journal)
            self.solver.push()
            self.frames.append(fr)
            depth = len(self.iotas)
            try:
                try:
                    res = fn()
                    n += 1
                    on_end(fr, res)
                except PathDead:
                    pass
            finally:
                self.frames.pop()
                self.solver.pop()
                self.rollback(mark)
                del self.iotas[depth:]
            for i in range(len(prefix), len(fr.trace)):
                for a in fr.trace[i][1]:
                    work.append([c for c, _ in fr.trace[:i]] + [a])
        return n

    # ---- universals -------------------------------------------------------------------------
    def add_univ(self, u, record=True):
        k = u.base.key
        lst = self.univs.get(k)
        if lst is None:
            lst = []
            self.jdict(self.univs, k, lst)
        self.jappend(lst, u)
        if record and self.frames:
            self.frames[-1].univs.append(u)
        for (b, t) in list(self.indices.get(k, [])):
            self._inst(u, t)

    def _inst(self, u, j, depth=0):
        fs, us, ix = u.instance(j)
        for f in fs:
            self.fact(f)
        for u2 in us:
            self.add_univ(u2, record=False)
            if self.frames:
                self.frames[-1].univs.append(u2)
        for b, t in ix:
            self.register_index(b, t)

    def _nest(self, t, d=0):
        if d > 6 or z3.is_const(t):
            return d
        return max([self._nest(c, d + 1) for c in t.children()] or [d])

    def register_index(self, base, j):
        k = base.key
        lst = self.indices.get(k)
        if lst is None:
            lst = []
            self.jdict(self.indices, k, lst)
        jid = j.get_id()
        for (_, t) in lst:
            if t.get_id() == jid:
                return
        if len(lst) > 24 or self._nest(j) > 5:
            return
        self.jappend(lst, (base, j))
        if self.frames:
            self.frames[-1].indices.append((base, j))
        if base.tag == "dict":
            d = base.term
            rng = z3.And(0 <= j, j < base.n)
            self.fact(z3.Implies(rng, f_idx(d, f_key(d, j)) == j))
        for u in list(self.univs.get(k, [])):
            self._inst(u, j)

    # ---- obligations ------------------------------------------------------------------------
    def prove(self, f, name, detail=""):
        t = time.time()
        if f is True:
            self.obligations.append(Obligation(name, "discharged", "evaluation", 0.0))
            return True
        if f is False:
            f = z3.BoolVal(False)
        r = self.check(z3.Not(f))
        backend = "z3"
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", 20000)
            s2.add(*self.base_facts)
            s2.add(*self.asserted)
            s2.add(z3.Not(f))
            r = s2.check()
            backend = "z3(fresh)"
            if r == z3.unknown:
                r, backend = cvc5_check(s2), "cvc5"
        for _ in range(2):
            if r != z3.sat or not self.cross_instantiate():
                break
            r = self.check(z3.Not(f))
            backend = "z3"
        dt = time.time() - t
        self.solver_time += 0
        if r == z3.unsat and self.recheck > 0 and not self.second(f):
            r = z3.sat
            detail = "second back end (cvc5) disagrees; " + detail
        if r == z3.unsat:
            self.obligations.append(Obligation(name, "discharged", backend, dt))
            return True
        st = "failed" if r == z3.sat else "unknown"
        path = [l for fr in self.frames for l in fr.labels][-30:]
        self.obligations.append(Obligation(name, st, backend, dt, detail or str(f)[:400], path))
        self._add(f)
        return False

    def cross_instantiate(self):
        """Universals over one collection are instantiated with the indices used for another that is provably the same."""
        bases = {}
        for k, us in self.univs.items():
            if us:
                bases[k] = us[0].base
        for k, ix in self.indices.items():
            if ix and k not in bases:
                bases[k] = ix[0][0]
        ks = list(bases)
        groups = []
        if len(ks) > 40:
            return False
        for a in range(len(ks)):
            for b in range(a):
                x, y = bases[ks[a]], bases[ks[b]]
                if x.tag != y.tag or x.tag == "range" or not x.term.sort().eq(y.term.sort()):
                    continue
                if z3.is_const(x.term) and z3.is_const(y.term):
                    continue
                if self.check(x.term != y.term) == z3.unsat:
                    groups.append((ks[a], ks[b]))
        done = False
        for a, b in groups:
            for k1, k2 in ((a, b), (b, a)):
                for _, j in list(self.indices.get(k2, [])):
                    n = len(self.indices.get(k1, []))
                    self.register_index(bases[k1], j)
                    done = done or len(self.indices.get(k1, [])) > n
        return done

    recheck = 0
    recheck_stats = None

    def second(self, f):
        """Thorough tier: the obligation is also put to cvc5; False only if cvc5 finds it false."""
        self.recheck -= 1
        if self.recheck_stats is None:
            self.recheck_stats = dict(asked=0, agreed=0, unknown=0)
        s2 = z3.Solver()
        s2.add(*self.base_facts)
        s2.add(*self.asserted)
        s2.add(z3.Not(f))
        self.recheck_stats["asked"] += 1
        r = cvc5_check(s2, 3000)
        self.recheck_stats["agreed" if r == z3.unsat else "unknown"] += 1
        return r != z3.sat

    def fail(self, name, detail):
        if self.check() == z3.unsat:
            raise PathDead()
        path = [l for fr in self.frames for l in fr.labels][-30:]
        self.obligations.append(Obligation(name, "failed", "z3", 0.0, detail, path))


def cvc5_check(s, tlimit=20000):
    import subprocess
    import tempfile
    import os
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        out = subprocess.run(["cvc5", f"--tlimit={tlimit}", "--strings-exp", p], capture_output=True, text=True, timeout=40)
        o = out.stdout.strip().split("\n")[0] if out.stdout else ""
        return {"unsat": z3.unsat, "sat": z3.sat}.get(o, z3.unknown)
    except Exception:
        return z3.unknown
    finally:
        os.unlink(p)
