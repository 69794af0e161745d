"""pyvc.loops: the loop rule.

A loop over a sequence of symbolic length is verified by executing its body once, at an arbitrary position
`iota`, in a state where every location written by earlier iterations is replaced by an accumulator.  The
outcomes of the body (path guards, facts, effects, exit kind) are then generalised: a loop that runs to the end
satisfies, at every position, the disjunction of its normal outcomes; a loop that leaves early does so at a
witness position, every earlier position having a normal outcome.
"""
import ast
from .core import *
from .values import *
from .values import _serial


class Outcome:
    __slots__ = ("guard", "decs", "facts", "univs", "indices", "kind", "value", "effects", "labels")


class Accum:
    """How a location written by earlier iterations is represented inside the body."""

    def __init__(self, loc, kind, init, **kw):
        self.loc, self.kind, self.init = loc, kind, init
        self.__dict__.update(kw)


def loc_key(loc):
    if loc[0] == "heap":
        return ("heap", id(loc[1]), loc[2])
    if loc[0] == "env":
        return ("env", id(loc[1]), loc[2])
    return (loc[0], id(loc[1]), loc[2])


def loc_get(loc):
    if loc[0] == "heap":
        return getattr(loc[1], loc[2])
    if loc[0] == "env":
        return loc[1].vars.get(loc[2], MISSING)
    return loc[1].get(loc[2], MISSING)


def loc_put(interp, loc, v):
    if loc[0] == "heap":
        interp.hset(loc[1], loc[2], v)
    elif loc[0] == "env":
        interp.log_write(loc)
        interp.ctx.jdict(loc[1].vars, loc[2], v)
    else:
        interp.log_write(loc)
        interp.ctx.jdict(loc[1], loc[2], v)


def loc_birth(loc):
    if loc[0] in ("heap", "env"):
        return loc[1].birth
    return 0


MEMOS = {}


def iteration_memo(lam, j):
    """The objects made by iteration j are the same ones in every summary of the loop."""
    fresh = {"birth": lam.birth, "origin": lam.birth}
    if lam.subs:
        return fresh
    return MEMOS.setdefault((lam.birth, j.get_id()), (j, fresh))[1]


def summarised(loc, birth):
    """The location belongs to an object made by an iteration of an earlier loop."""
    return loc[0] == "heap" and getattr(loc[1], "origin", birth) < birth


class LamSeg(SymSeg):
    """For 0 <= j < m: the segments appended by iteration j, by cases."""

    def __init__(self, base, m, outs, iota, birth, subs=()):
        self.base, self.m, self.outs, self.iota, self.birth, self.subs = base, m, outs, iota, birth, subs
        self.one = all(len(segs) == 1 and (segs[0][0] == "el" or (segs[0][0] == "sym" and False)) for _, segs in outs)
        self.tag = None

    def cases(self, interp, j):
        out = []
        for g, segs in self.outs:
            ss = list(segs)
            for pairs, b in self.subs:
                g = z3.substitute(g, *pairs)
                memo = {"birth": b}
                ss = [substseg(s, pairs, memo) for s in ss]
            p = [(self.iota, j)]
            memo = iteration_memo(self, j)
            out.append((z3.substitute(g, *p), [substseg(s, p, memo) for s in ss]))
        return out

    def subst(self, pairs, memo):
        return LamSeg(self.base.subst(pairs), z3.substitute(self.m, *pairs), self.outs, self.iota, self.birth,
                      self.subs + ((pairs, memo["birth"]),))


class LamDict:
    """For 0 <= j < m: the dict operations performed by iteration j, by cases (a list of ('set', k, v))."""

    def __init__(self, base, m, outs, iota, birth, subs=()):
        self.base, self.m, self.outs, self.iota, self.birth, self.subs = base, m, outs, iota, birth, subs
        for _, ops in outs:
            for o in ops:
                if o[0] != "set":
                    raise Unsupported(f"dict operation '{o[0]}' inside a loop over a symbolic sequence")

    def cases(self, j):
        out = []
        for g, ops in self.outs:
            oo = list(ops)
            for pairs, b in self.subs:
                g = z3.substitute(g, *pairs)
                memo = {"birth": b}
                oo = [substop(s, pairs, memo) for s in oo]
            p = [(self.iota, j)]
            memo = iteration_memo(self, j)
            out.append((z3.substitute(g, *p), [substop(s, p, memo) for s in oo]))
        return out

    def subst(self, pairs, memo):
        return LamDict(self.base.subst(pairs), z3.substitute(self.m, *pairs), self.outs, self.iota, self.birth,
                       self.subs + ((pairs, memo["birth"]),))

    def always_one(self):
        return all(len(ops) == 1 for _, ops in self.outs)

    def kv_cases(self, interp, j):
        return [(g, [(o[1], o[2]) for o in ops]) for g, ops in self.cases(j)]

    def elem_kvs(self, interp, j):
        cs = self.kv_cases(interp, j)
        if len(cs) == 1:
            return cs[0][1]
        i = interp.ctx.decide([c for c, _ in cs], [f"dict case {k} at {str(j)[:20]}" for k in range(len(cs))])
        return cs[i][1]

    def _direct(self, interp):
        """True when every key written by iteration j is literally the j-th key of the base dictionary."""
        if self.base.tag != "dict":
            return False
        j = z3.Const("probe!", I)
        for _, ops in self.cases(j):
            for o in ops:
                k = o[1]
                try:
                    t = interp.reify(k)
                except Unsupported:
                    return False
                if not t.eq(f_key(self.base.term, j)):
                    return False
        return True

    def writes_key(self, interp, ops, key):
        fs = []
        for o in ops:
            f = interp.eq(o[1], key)
            if f is True:
                return z3.BoolVal(True)
            if f is not False:
                fs.append(f)
        return z3.Or(*fs) if fs else z3.BoolVal(False)

    def lookup(self, interp, key):
        ctx = interp.ctx
        if self._direct(interp):
            d = self.base.term
            k = interp.reify(key)
            if z3.is_app(k) and k.decl().eq(f_key) and k.arg(0).eq(d):
                j = k.arg(1)
            else:
                j = f_idx(d, k)
            ctx.register_index(self.base, j)
            if not ctx.branch(z3.And(0 <= j, j < self.m, f_key(d, j) == k), f"has({str(d)[:30]},{str(key)[:30]})"):
                return None
            cs = self.cases(j)
            i = 0 if len(cs) == 1 else ctx.decide([c for c, _ in cs], [f"case {n}" for n in range(len(cs))])
            ops = cs[i][1]
            if not ops:
                return None
            return True, ops[-1][2]
        b = ctx.fresh("writes", B)
        w = ctx.fresh("w", I)
        if ctx.branch(b, f"loop writes key {str(key)[:40]}"):
            ctx.fact(z3.And(0 <= w, w < self.m))
            ctx.register_index(self.base, w)

            def later(j):
                fs = []
                for g, ops in self.cases(j):
                    fs.append(z3.Implies(z3.And(w < j, j < self.m, g), z3.Not(self.writes_key(interp, ops, key))))
                return fs, [], []
            ctx.add_univ(Univ(self.base, later, "last writer"))
            cs = self.cases(w)
            i = 0 if len(cs) == 1 else ctx.decide([c for c, _ in cs], [f"writer case {n}" for n in range(len(cs))])
            for n in range(len(cs[i][1]) - 1, -1, -1):
                o = cs[i][1][n]
                f = interp.eq(o[1], key)
                if f is False:
                    continue
                if f is True or ctx.branch(f, f"writer key {n}"):
                    return True, o[2]
            raise PathDead()

        def never(j):
            fs = []
            for g, ops in self.cases(j):
                fs.append(z3.Implies(z3.And(0 <= j, j < self.m, g), z3.Not(self.writes_key(interp, ops, key))))
            return fs, [], []
        ctx.add_univ(Univ(self.base, never, "no writer"))
        if ctx.check() == z3.unsat:
            raise PathDead()
        return None

    def check_distinct(self, interp):
        if self._direct(interp):
            return
        ctx = interp.ctx
        i, j = ctx.fresh("d1", I), ctx.fresh("d2", I)
        bad = [False]

        def body():
            ctx.fact(z3.And(0 <= i, i < j, j < self.m))
            ctx.register_index(self.base, i)
            ctx.register_index(self.base, j)
            a, b = self.elem_kvs(interp, i), self.elem_kvs(interp, j)
            for k1, _ in a:
                for k2, _ in b:
                    f = interp.eq(k1, k2)
                    if f is True or (f is not False and ctx.feasible(f)):
                        bad[0] = True
        ctx.explore(body, lambda fr, r: None)
        if bad[0]:
            raise Unsupported("iteration over a dictionary whose keys may collide")


def run_loop(interp, segs, body, where="", node=None, env=None):
    for s in segs:
        if s[0] == "el":
            try:
                body(s[1])
            except ContinueEx:
                pass
            except BreakEx:
                return "break"
        elif s[0] == "sym":
            try:
                sym_loop(interp, s[1], body, where, node, env)
            except BreakEx:
                return "break"
        else:
            raise Unsupported(f"loop over an accumulator at {where}")
    return None


def do_segs(interp, segs, body, where, node, env):
    for s in segs:
        if s[0] == "el":
            try:
                body(s[1])
            except ContinueEx:
                pass
        elif s[0] == "sym":
            sym_loop(interp, s[1], body, where, node, env)
        else:
            raise Unsupported(f"loop over an accumulator at {where}")


def havoc_value(interp, ctx, loc, init, iota):
    """Representation of the location at the start of iteration iota. -> Accum"""
    if loc[0] == "heap":
        obj, attr = loc[1], loc[2]
        if isinstance(obj, (ListV, DictV, SetV)) and attr in ("segs", "ops", "parts"):
            return Accum(loc, "coll", init)
        raise Unsupported(f"{type(obj).__name__}.{attr} is written by a loop over a symbolic sequence")
    init_n = interp.norm(init) if init is not MISSING and not isinstance(init, Poison) else init
    if isinstance(init_n, (bool, SB)):
        return Accum(loc, "flag", init_n)
    if isinstance(init_n, (int, SI)):
        return Accum(loc, "int", init_n)
    if isinstance(init_n, (ListV, DictV, SetV)):
        return Accum(loc, "newcoll", init_n)
    return Accum(loc, "poison", init)


def install_accum(interp, a, iota):
    ctx = interp.ctx
    tag = ("acc", id(a))
    if a.kind == "coll":
        loc_put(interp, a.loc, tuple(a.init) + (tag,))
    elif a.kind == "flag":
        a.pre = ctx.fresh("flag", B)
        loc_put(interp, a.loc, SB(a.pre))
    elif a.kind == "int":
        a.pre = ctx.fresh("cnt", I)
        loc_put(interp, a.loc, SI(a.pre))
    elif a.kind == "counter":
        loc_put(interp, a.loc, SI(z3.simplify(interp.num(a.init) + a.d * iota)))
    elif a.kind == "newcoll":
        c = object.__new__(type(a.init))
        c.__dict__.update(a.init.__dict__)
        c.birth = next(_serial)
        c.term = None
        attr = {ListV: "segs", DictV: "ops", SetV: "parts"}[type(c)]
        setattr(c, attr, tuple(getattr(c, attr)) + (tag,))
        a.attr = attr
        loc_put(interp, a.loc, c)
    elif a.kind == "inv":
        loc_put(interp, a.loc, a.inv.assume(interp, iota))
    else:
        loc_put(interp, a.loc, Poison("written by an earlier loop iteration"))


def sym_loop(interp, seg, body, where, node, env):
    ctx = interp.ctx
    if ctx.entails(seg.m <= 0):
        return
    birth = next(_serial)
    iota = z3.Const(f"iota!{birth}", I)
    accs = {}
    interp.loops_seen = getattr(interp, "loops_seen", 0) + 1
    saved_writes = interp.writes

    for attempt in range(8):
        outs = []
        new_locs = {}
        pre_sheap = set(interp.sheap)

        def run():
            ctx.iotas.append(iota)
            ctx.fact(z3.And(0 <= iota, iota < seg.m))
            fr = ctx.frames[-1]
            # instances of older summaries at iota are not part of this summary (they hold at every index anyway)
            ctx.register_index(seg.base, iota)
            skip = (len(fr.facts), len(fr.univs), len(fr.indices))
            interp.writes = []
            for a in accs.values():
                install_accum(interp, a, iota)
            interp.writes = []
            try:
                do_segs(interp, seg.elem(interp, iota), body, where, node, env)
                return "normal", None, skip
            except BreakEx:
                return "break", None, skip
            except ReturnEx as r:
                return "return", r.value, skip
            except PyRaise as e:
                return "raise", e.exc, skip

        def on_end(fr, res):
            kind, value, skip = res
            o = Outcome()
            memo = {"birth": birth}
            ident = [(iota, iota)]
            o.kind = kind
            o.decs = list(fr.decs)
            o.guard = z3.And(*fr.decs) if len(fr.decs) > 1 else (fr.decs[0] if fr.decs else z3.BoolVal(True))
            o.facts = fr.facts[skip[0]:]
            o.univs, o.indices = fr.univs[skip[1]:], fr.indices[skip[2]:]
            o.labels = list(fr.labels)
            o.value = substm(value, ident, memo)
            o.effects = {}
            for loc in interp.writes:
                if summarised(loc, birth):
                    raise Unsupported(f"an object made by an earlier loop is mutated in the loop at {where}")
                if loc[0] == "tasks" or loc_birth(loc) >= birth:
                    continue
                k = loc_key(loc)
                if k in o.effects:
                    continue
                if loc[0] == "heap" and loc[1].birth == 0 and loc[1].term is not None \
                        and loc[1].term.get_id() not in pre_sheap:
                    if mentions(loc[1].term, iota):
                        raise Unsupported(f"a per-element container is mutated in the loop at {where}")
                    new_locs[("thaw", loc[1].term.get_id())] = ("thaw", loc[1].term)
                    continue
                a = accs.get(k)
                v = loc_get(loc)
                o.effects[k] = (loc, snap(v, loc, a, ident, memo, interp))
                if kind == "normal" and a is None:
                    new_locs[k] = loc
            # accumulators whose location is intact (same accumulator) count as no effect
            for k, a in accs.items():
                if k not in o.effects:
                    continue
            outs.append(o)

        try:
            ctx.explore(run, on_end)
        finally:
            interp.writes = saved_writes
        if new_locs:
            for k, loc in new_locs.items():
                if loc[0] == "thaw":
                    interp.thaw(SV(loc[1]))
                    continue
                h = interp.loop_inv(where, loc, loc_get(loc), seg)
                if h is not None:
                    accs[k] = Accum(loc, "inv", loc_get(loc), inv=h)
                    h.base_case(interp)
                else:
                    accs[k] = havoc_value(interp, ctx, loc, loc_get(loc), iota)
            continue
        redo = False
        for k, a in accs.items():
            if a.kind == "int":
                ds = set()
                for o in outs:
                    if o.kind == "normal":
                        if k in o.effects:
                            v = interp.norm(o.effects[k][1])
                            d = z3.simplify(interp.num(v) - a.pre) if isinstance(v, (SI, int)) else None
                            ds.add(d.as_long() if d is not None and z3.is_int_value(d) else None)
                        else:
                            ds.add(0)
                if len(ds) == 1 and None not in ds:
                    a.kind, a.d = "counter", ds.pop()
                else:
                    a.kind = "poison"
                redo = True
            elif a.kind in ("coll", "newcoll"):
                pass
        if redo:
            continue
        break
    else:
        raise Unsupported(f"loop at {where}: written locations do not stabilise")
    finish(interp, seg, iota, birth, accs, outs, where)


def snap(v, loc, a, ident, memo, interp):
    if v is MISSING:
        return MISSING
    if loc[0] == "heap" and loc[2] == "segs":
        return tuple(substseg(s, ident, memo) for s in v)
    if loc[0] == "heap" and loc[2] == "ops":
        return tuple(substop(s, ident, memo) for s in v)
    if loc[0] == "heap" and loc[2] == "parts":
        return tuple(substseg(s, ident, memo) for s in v)
    if loc[0] == "heap":
        if isinstance(v, tuple):
            return tuple(substm(x, ident, memo) for x in v)
        return substm(v, ident, memo)
    return substm(v, ident, memo)


def mentions(t, c):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        stack.extend(x.children())
    return False


def suffix_of(cur, a):
    """Elements added after the accumulator marker."""
    tag = ("acc", id(a))
    for n, s in enumerate(cur):
        if s[0] == "acc" and s[1] == tag[1]:
            if n != len(a.pre_content):
                raise Unsupported("collection rebuilt inside the loop")
            return tuple(cur[n + 1:])
    raise Unsupported("collection replaced inside the loop")


def apply_outs(interp, seg, iota, birth, accs, normal, M):
    """State after the iterations 0 <= j < M, all with a normal outcome."""
    ctx = interp.ctx
    for k, a in accs.items():
        if a.kind in ("coll", "newcoll"):
            if a.kind == "coll":
                a.pre_content = a.init
            else:
                a.pre_content = getattr(a.init, a.attr)
            cases = []
            for o in normal:
                if k in o.effects:
                    v = o.effects[k][1]
                    if a.kind == "newcoll":
                        if type(v) is not type(a.init):
                            raise Unsupported("a collection variable changes class inside a loop")
                        v = getattr(v, a.attr)
                    cases.append((o.guard, suffix_of(v, a)))
                else:
                    cases.append((o.guard, ()))
            if all(not c for _, c in cases):
                newcontent = a.pre_content
            else:
                isdict = isinstance(a.loc[1], DictV) if a.kind == "coll" else isinstance(a.init, DictV)
                if isdict:
                    new = ("lam", LamDict(seg.base, M, cases, iota, birth))
                else:
                    new = ("sym", LamSeg(seg.base, M, cases, iota, birth))
                newcontent = tuple(a.pre_content) + (new,)
            if a.kind == "coll":
                loc_put(interp, a.loc, newcontent)
            else:
                c = object.__new__(type(a.init))
                c.__dict__.update(a.init.__dict__)
                c.birth = next(_serial)
                c.term = None
                setattr(c, a.attr, newcontent)
                loc_put(interp, a.loc, c)
        elif a.kind == "counter":
            loc_put(interp, a.loc, interp.norm(SI(z3.simplify(interp.num(a.init) + a.d * M))))
        elif a.kind == "flag":
            loc_put(interp, a.loc, flag_post(interp, seg, iota, birth, a, k, normal, M))
        elif a.kind == "inv":
            loc_put(interp, a.loc, a.inv.assume(interp, M))
        else:
            loc_put(interp, a.loc, Poison("written by a loop iteration"))


def flag_post(interp, seg, iota, birth, a, k, normal, M):
    ctx = interp.ctx
    init = interp.asf(a.init.f if isinstance(a.init, SB) else a.init)
    fin = []
    up = down = True
    for o in normal:
        f = a.pre
        if k in o.effects:
            v = interp.norm(o.effects[k][1])
            if not isinstance(v, (bool, SB)):
                return Poison("flag changes class inside a loop")
            f = interp.asf(v)
        fin.append((o, f))
        prem = [o.guard] + o.facts
        if up and ctx.check(z3.And(0 <= iota, iota < seg.m), *prem, a.pre, z3.Not(f)) != z3.unsat:
            up = False
        if down and ctx.check(z3.And(0 <= iota, iota < seg.m), *prem, z3.Not(a.pre), f) != z3.unsat:
            down = False
    if not up and not down:
        return Poison("flag is not monotone in the loop")
    start = z3.BoolVal(not up)
    if up and down:
        return a.init
    pairs0 = [(a.pre, start)]

    def step(j):
        alts = []
        for o, f in fin:
            g = z3.And(z3.substitute(o.guard, *pairs0), z3.substitute(f if up else z3.Not(f), *pairs0))
            alts.append(z3.substitute(z3.simplify(g), (iota, j)))
        return z3.Or(*alts)
    ex = interp.exists(seg.base, M, step)
    return interp.norm(SB(z3.simplify(z3.Or(init, ex) if up else z3.And(init, z3.Not(ex)))))


def finish(interp, seg, iota, birth, accs, outs, where):
    ctx = interp.ctx
    normal = [o for o in outs if o.kind == "normal"]
    exits = [o for o in outs if o.kind != "normal"]
    if not outs:
        # no feasible iteration: the sequence must be empty
        ctx.fact(seg.m <= 0)
        return
    for k, a in accs.items():
        if a.kind == "inv":
            # preservation: every normal outcome re-establishes the invariant
            for o in normal:
                v = o.effects[k][1] if k in o.effects else None

                def chk(o=o, v=v, k=k):
                    ctx.fact(z3.And(0 <= iota, iota < seg.m))
                    ctx.register_index(seg.base, iota)
                    for b, t in o.indices:
                        ctx.register_index(b, t)
                    for f in o.decs + o.facts:
                        ctx.fact(f)
                    for u in o.univs:
                        ctx.add_univ(u)
                    a.inv.preserve(interp, iota, a.inv.cur if k not in o.effects else v)
                ctx.explore(chk, lambda fr, r: None)

    def summary(M, strict_w=None):
        def inst(j):
            rng = z3.And(0 <= j, j < M)
            p = [(iota, j)]
            fs, us, ix = [], [], []
            gs = [z3.substitute(o.guard, *p) for o in normal]
            if not (len(gs) == 1 and z3.is_true(gs[0])):
                fs.append(z3.Implies(rng, z3.Or(*gs) if gs else z3.BoolVal(False)))
            for o, g in zip(normal, gs):
                gg = rng if z3.is_true(g) else z3.And(rng, g)
                for f in o.facts:
                    fs.append(z3.Implies(gg, z3.substitute(f, *p)))
                for u in o.univs:
                    us.append(u.subst(p, gg))
                for b, t in o.indices:
                    t2 = z3.substitute(t, *p)
                    if not t2.eq(j):
                        ix.append((b.subst(p), t2))
            return fs, us, ix
        return Univ(seg.base, inst, f"loop {where}")

    if exits:
        c = ctx.fresh("exit", I)
        ctx.fact(c >= 0)
        which = ctx.decide([c == 0] + [c == n + 1 for n in range(len(exits) - 1)] + [c >= len(exits)],
                           [f"{where}: runs to the end"] + [f"{where}: {o.kind} #{n}" for n, o in enumerate(exits)])
    else:
        which = 0
    if which == 0:
        ctx.add_univ(summary(seg.m))
        if not normal:
            ctx.fact(seg.m <= 0)
        if exits and ctx.check() == z3.unsat:
            raise PathDead()
        apply_outs(interp, seg, iota, birth, accs, normal, seg.m)
        return
    o = exits[which - 1]
    w = ctx.fresh("wexit", I)
    p = [(iota, w)]
    ctx.fact(z3.And(0 <= w, w < seg.m))
    if not normal:
        ctx.fact(w == 0)
    ctx.fact(z3.substitute(o.guard, *p))
    ctx.register_index(seg.base, w)
    for f in o.facts:
        ctx.fact(z3.substitute(f, *p))
    for u in o.univs:
        ctx.add_univ(u.subst(p))
    for b, t in o.indices:
        ctx.register_index(b.subst(p), z3.substitute(t, *p))
    if normal:
        ctx.add_univ(summary(w))
    if ctx.check() == z3.unsat:
        raise PathDead()
    apply_outs(interp, seg, iota, birth, accs, normal, w)
    memo = {"birth": birth}
    for k, a in accs.items():
        if a.kind == "flag":
            v = loc_get(a.loc)
            if not isinstance(v, Poison):
                ctx.fact(z3.substitute(a.pre, *p) == interp.asf(v.f if isinstance(v, SB) else v))
    for k, (loc, v) in o.effects.items():
        a = accs.get(k)
        if a is not None and a.kind == "coll":
            suf = suffix_of(v, a)
            cur = loc_get(loc)
            sub = [(substop if loc[2] == "ops" else substseg)(s, p, memo) for s in suf]
            loc_put(interp, loc, tuple(cur) + tuple(sub))
        elif a is not None and a.kind == "newcoll":
            if type(v) is type(a.init) and any(s[0] == "acc" and s[1] == id(a) for s in getattr(v, a.attr)):
                suf = suffix_of(getattr(v, a.attr), a)
                cur = loc_get(loc)
                sub = [(substop if a.attr == "ops" else substseg)(s, p, memo) for s in suf]
                interp.hset(cur, a.attr, tuple(getattr(cur, a.attr)) + tuple(sub))
            else:
                loc_put(interp, loc, substm(v, p, memo))
        elif loc[0] == "heap" and loc[2] in ("segs", "parts"):
            loc_put(interp, loc, tuple(substseg(s, p, memo) for s in v))
        elif loc[0] == "heap" and loc[2] == "ops":
            loc_put(interp, loc, tuple(substop(s, p, memo) for s in v))
        elif v is MISSING:
            pass
        else:
            loc_put(interp, loc, substm(v, p, memo))
    value = substm(o.value, p, memo)
    if o.kind == "break":
        raise BreakEx()
    if o.kind == "return":
        raise ReturnEx(value)
    raise PyRaise(value)


def while_loop(interp, n, env, bound=24):
    inv = interp.while_inv(n, env)
    if inv is not None:
        return inv(interp, n, env)
    count = 0
    while True:
        if not interp.truthy(interp.eval(n.test, env), label=f"{env.module.name.split('.')[-1]}:{n.lineno} while"):
            break
        count += 1
        if count > bound:
            raise Unsupported(f"while loop at {env.module.name}:{n.lineno} without an invariant")
        try:
            interp.exec_block(n.body, env)
        except BreakEx:
            return
        except ContinueEx:
            continue
    interp.exec_block(n.orelse, env)


# ------------------------------------------------------------------------------ loops with a stated invariant
def stored_names(n):
    out = []
    for b in n.body + ([n.target] if isinstance(n, ast.For) else []):
        for c in ast.walk(b):
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)) and c.id not in out:
                out.append(c.id)
    return out


def owner(env, name):
    e = env
    while e is not None:
        if name in e.vars or name in e.locals_:
            return e
        e = e.parent
    return env


def prefix(seg, j):
    import copy
    c = copy.copy(seg)
    c.m = z3.simplify(j)
    return c


class InvLoop:
    """The classical rule: the invariant holds on entry, is preserved by the body from an arbitrary state, and holds after."""

    def __init__(self, interp, n, env, inv):
        self.i, self.n, self.env = interp, n, env
        self.q, self.pred, self.specs = inv
        self.allowed = set()
        self.alias = {}
        for name, spec in self.specs.items():
            if name != "yields" and not name.startswith("ghost_"):
                self.alias[name] = self.code_name(name, spec)

    def code_name(self, name, spec):
        """The variable of the code an invariant speaks of, if need be under another name (an invariant is proved, so this is only a guess)."""
        def bound(x):
            e = self.env
            while e is not None:
                if x in e.vars:
                    return e.vars[x]
                e = e.parent
            return MISSING
        if bound(name) is not MISSING:
            return name
        targets = {c.id for c in ast.walk(self.n.target) if isinstance(c, ast.Name)} if isinstance(self.n, ast.For) else set()
        out = []
        if isinstance(spec, tuple) and spec[0] == "in":
            kind = {"list": ListV, "set": SetV, "dict": DictV}[spec[1][0]]
            for b in self.n.body:
                for c in ast.walk(b):
                    v = c.value if isinstance(c, (ast.Attribute, ast.Subscript)) else None
                    if isinstance(v, ast.Name) and v.id not in targets and v.id not in out \
                            and (isinstance(c, ast.Attribute) or isinstance(c.ctx, ast.Store)) and isinstance(bound(v.id), (kind, SV)):
                        out.append(v.id)
        else:
            out = [x for x in stored_names(self.n) if x not in targets and bound(x) is not MISSING and not isinstance(bound(x), Poison)]
        out = [x for x in out if x not in self.specs and x not in self.alias.values()]
        return out[0] if out else name

    def current(self):
        out = {}
        for name in self.specs:
            if name.startswith("ghost_"):
                out[name] = self.i.getitem(self.ghosts(), name[6:])
            else:
                out[name] = self.i.ghost.get("yield") if name == "yields" else self.i.lookup(self.alias[name], self.env)
        return out

    def ghosts(self):
        """The dictionary GHOST of the specification."""
        return self.i.module_attr(self.pred.module.name, "GHOST")

    def havoc(self):
        i = self.i
        for name in stored_names(self.n):
            if name not in self.alias.values():
                i.setvar(owner(self.env, name), name, Poison("assigned in a loop and not covered by its invariant"))
        for name, spec in self.specs.items():
            t = i.ctx.fresh("inv_" + name, V)
            if name.startswith("ghost_"):
                i.typed(SV(t), spec)
                i.dict_set(self.ghosts(), name[6:], i.norm(SV(t)))
                self.allowed.add((id(self.ghosts()), "ops"))
                continue
            if isinstance(spec, tuple) and spec[0] == "in":
                o = i.ghost.get("yield") if name == "yields" else i.lookup(self.alias[name], self.env)
                v = SV(t)
                i.typed(v, spec[1])
                if isinstance(o, SV):
                    o = i.thaw(o)
                if isinstance(o, ListV):
                    i.hset(o, "segs", (("sym", i.base_list_seg(t)),))
                    self.allowed.add((id(o), "segs"))
                elif isinstance(o, SetV):
                    i.hset(o, "parts", (("set", t),))
                    self.allowed.add((id(o), "parts"))
                elif isinstance(o, DictV):
                    i.hset(o, "ops", (("base", t),))
                    self.allowed.add((id(o), "ops"))
                else:
                    raise Unsupported(f"loop invariant over {name}")
            else:
                v = SV(t)
                i.typed(v, spec)
                i.setvar(owner(self.env, self.alias[name]), self.alias[name], i.norm(v))

    def holds(self, done, step, nxt=None):
        i = self.i
        kw = self.current()
        kw["done"], kw["step"], kw["nxt"] = done, step, nxt
        names = [a.arg for a in self.pred.node.args.args]
        r = i.call(self.pred, [], {k: v for k, v in kw.items() if k in names})
        f = i.truth(r)
        return f if isinstance(f, bool) else z3.simplify(f)

    def require(self, done, step, what):
        self.i.ctx.prove(self.holds(done, step), f"loop invariant of {self.q} {what}")

    def given(self, done, step, nxt=None):
        f = self.holds(done, step, nxt)
        if f is False:
            raise PathDead()
        self.i.ctx.fact(f)
        if self.i.ctx.check() == z3.unsat:
            raise PathDead()

    def body(self, run):
        """Run the body once; afterwards nothing but the stated locations may have changed."""
        i = self.i
        birth = next(_serial)
        saved, i.writes = i.writes, []
        outcome = "normal"
        names = set(stored_names(self.n)) | set(self.specs) | set(self.alias.values())
        try:
            try:
                run()
            except ContinueEx:
                pass
            except BreakEx:
                outcome = "break"
            if outcome == "normal":
                for loc in i.writes:
                    if summarised(loc, birth):
                        raise Unsupported("an object made by an earlier loop is mutated in a loop with an invariant")
                    if loc[0] == "tasks" or loc_birth(loc) >= birth:
                        continue
                    if loc[0] == "env" and loc[2] in names and loc[1] is owner(self.env, loc[2]):
                        continue
                    if loc[0] == "heap" and (id(loc[1]), loc[2]) in self.allowed:
                        continue
                    raise Unsupported(f"a loop with an invariant writes {loc[0]} {loc[2]} of {str(loc[1])[:60]}, which the invariant does not cover")
        finally:
            w, i.writes = i.writes, saved
            if saved is not None:
                saved.extend(w)
        return outcome


def inv_for(interp, n, env, segs, body, inv):
    ctx = interp.ctx
    segs = list(segs)
    L = InvLoop(interp, n, env, inv)
    if len(segs) != 1 or segs[0][0] != "sym":
        # a sequence of known shape is unrolled
        r = run_loop(interp, segs, body, where=f"{env.module.name}:{n.lineno}", node=n, env=env)
        if r != "break":
            interp.exec_block(n.orelse, env)
        return
    seg = segs[0][1]
    text = seg.base.tag == "chars"

    def done(j):
        if text:
            return interp.norm(SS(z3.simplify(z3.SubString(f_s(seg.base.term), z3.IntVal(0), j))))
        return ListV([("sym", prefix(seg, j))])
    L.require("" if text else ListV(), None, "on entry")
    j = ctx.fresh("done", I)
    c = ctx.fresh("exit", B)
    if not ctx.branch(c, f"loop at {n.lineno} done"):
        L.havoc()
        ctx.fact(z3.And(0 <= j, j < seg.m))
        ctx.register_index(seg.base, j)
        es = seg.elem(interp, j)
        if len(es) != 1 or es[0][0] != "el":
            raise Unsupported("loop invariant over a filtered sequence")
        e = es[0][1]
        L.given(done(j), None, e)
        r = L.body(lambda: body(e))
        if r == "break":
            return
        L.require(done(j + 1), (done(j), e), "is preserved")
        raise PathDead()
    L.havoc()
    L.given(done(seg.m), None)
    interp.exec_block(n.orelse, env)


def inv_while(interp, n, env, inv):
    ctx = interp.ctx
    L = InvLoop(interp, n, env, inv)
    L.require(None, None, "on entry")
    c = ctx.fresh("exit", B)
    if not ctx.branch(c, f"loop at {n.lineno} done"):
        L.havoc()
        L.given(None, None)
        if not interp.truthy(interp.eval(n.test, env)):
            raise PathDead()
        r = L.body(lambda: interp.exec_block(n.body, env))
        if r == "break":
            return
        L.require(None, True, "is preserved")
        raise PathDead()
    L.havoc()
    L.given(None, None)
    if interp.truthy(interp.eval(n.test, env)):
        raise PathDead()
    interp.exec_block(n.orelse, env)
