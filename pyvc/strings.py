"""Symbolic strings: cutting at separators (split, partition, find, ...) and slicing at component boundaries.

A cut is decided syntactically where the string is a concatenation with the separator in a literal part, if the solver confirms that
there is no earlier (later) occurrence; else the path forks on whether the separator occurs, with fresh strings around it."""
import re

import z3

from .core import cvc5_check
from .values import SB, SS, ListV, S, B

MAXPEEL = 5


def comps(e):
    """Components of a concatenation; adjacent literals joined."""
    if isinstance(e, str):
        return [e] if e else []
    if isinstance(e, SS):
        e = e.e
    out = []

    def walk(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children():
                walk(c)
        elif z3.is_string_value(x):
            v = lit(x)
            if out and isinstance(out[-1], str):
                out[-1] += v
            elif v:
                out.append(v)
        else:
            out.append(x)
    walk(e)
    return out


def lit(x):
    v = x.as_string()
    if "\\u{" in v:
        v = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), v)
    return v


def build(cs):
    cs = [c for c in cs if not (isinstance(c, str) and c == "")]
    if not cs:
        return ""
    if len(cs) == 1:
        return cs[0] if isinstance(cs[0], str) else SS(cs[0])
    return SS(z3.Concat(*[z3.StringVal(c) if isinstance(c, str) else c for c in cs]))


def z(s):
    return z3.StringVal(s) if isinstance(s, str) else (s.e if isinstance(s, SS) else s)


def mentions_strings(f, seen=None):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if x.sort() == S:
            return True
        todo += x.children()
    return False


def sentails(ctx, f):
    """Entailment by the facts about strings."""
    s = z3.Solver()
    for x in ctx.textfacts + ctx.asserted:
        if mentions_strings(x):
            s.add(x)
    s.add(z3.Not(f))
    ctx.tick()
    ctx.checks += 1
    names = {}
    key = re.sub(r"![0-9]+", lambda m: names.setdefault(m.group(0), f"!{len(names)}"), s.sexpr())
    hit = CACHE.get(key)
    if hit is None:
        hit = CACHE[key] = cvc5_check(s, 4000) == z3.unsat
    return hit


CACHE = {}


def decided(ctx, f):
    """The formula, or its truth value where the facts about strings settle it."""
    if ctx.textfacts:
        if sentails(ctx, f):
            return True
        if sentails(ctx, z3.Not(f)):
            return False
    return SB(f)


def cut_first(i, s, sep):
    """(before, after) at the first occurrence of sep, or None if (on this path) there is none."""
    if isinstance(s, str):
        k = s.find(sep)
        return None if k < 0 else (s[:k], s[k + len(sep):])
    cs = comps(s)
    ctx = i.ctx
    for n, c in enumerate(cs):
        if isinstance(c, str) and sep in c:
            k = c.find(sep)
            before, after = cs[:n] + [c[:k]], [c[k + len(sep):]] + cs[n + 1:]
            b = build(before + [sep[:-1]])
            if isinstance(b, str) or sentails(ctx, z3.Not(z3.Contains(z(b), z3.StringVal(sep)))):
                return build(before), build(after)
            break
    has = z3.Contains(z(s), z3.StringVal(sep))
    if sentails(ctx, z3.Not(has)):
        return None
    if not ctx.branch(has, f"{sep!r} in string"):
        return None
    before, after = ctx.fresh("before", S), ctx.fresh("after", S)
    ctx.fact(z(s) == z3.Concat(before, z3.StringVal(sep), after))
    ctx.fact(z3.Not(z3.Contains(z3.Concat(before, z3.StringVal(sep[:-1])) if len(sep) > 1 else before, z3.StringVal(sep))))
    return SS(before), SS(after)


def cut_last(i, s, sep):
    if isinstance(s, str):
        k = s.rfind(sep)
        return None if k < 0 else (s[:k], s[k + len(sep):])
    cs = comps(s)
    ctx = i.ctx
    for n in reversed(range(len(cs))):
        c = cs[n]
        if isinstance(c, str) and sep in c:
            k = c.rfind(sep)
            before, after = cs[:n] + [c[:k]], [c[k + len(sep):]] + cs[n + 1:]
            a = build([sep[1:]] + after)
            if isinstance(a, str) or sentails(ctx, z3.Not(z3.Contains(z(a), z3.StringVal(sep)))):
                return build(before), build(after)
            break
    has = z3.Contains(z(s), z3.StringVal(sep))
    if sentails(ctx, z3.Not(has)):
        return None
    if not ctx.branch(has, f"{sep!r} in string"):
        return None
    before, after = ctx.fresh("before", S), ctx.fresh("after", S)
    ctx.fact(z(s) == z3.Concat(before, z3.StringVal(sep), after))
    ctx.fact(z3.Not(z3.Contains(z3.Concat(z3.StringVal(sep[1:]), after) if len(sep) > 1 else after, z3.StringVal(sep))))
    return SS(before), SS(after)


class SplitV(ListV):
    """The result of s.split(sep, maxsplit), cut on demand."""

    def __init__(self, i, s, sep, maxsplit=-1):
        self.i, self.sep, self.left = i, sep, maxsplit
        self.front, self.tail = (), s          # pieces cut off so far, the rest (None: nothing left)
        self._segs = None
        super().__init__(())
        self._segs = None

    @property
    def segs(self):
        if self._segs is None:
            self.materialize()
        return self._segs

    @segs.setter
    def segs(self, v):
        self._segs = v

    def peel(self):
        j = self.i.ctx.jset
        cut = None if self.left == 0 else cut_first(self.i, self.tail, self.sep)
        if cut is None:
            j(self, "front", self.front + (self.tail,))
            j(self, "tail", None)
        else:
            j(self, "front", self.front + (cut[0],))
            j(self, "tail", cut[1])
            if self.left > 0:
                j(self, "left", self.left - 1)

    def materialize(self):
        ctx = self.i.ctx
        n = 0
        while self.tail is not None and n < MAXPEEL:
            self.peel()
            n += 1
        out = [("el", p) for p in self.front]
        if self.tail is not None:
            from .values import V, f_len
            t = ctx.fresh("split_rest", V)
            ctx.fact(f_len(t) >= 1)
            out.append(("sym", self.i.base_list_seg(t)))
        ctx.jset(self, "_segs", tuple(out))

    def piece(self, k):
        """The piece number k, or NotImplemented where the general list operation is needed."""
        if self._segs is not None:
            return NotImplemented
        if k >= 0:
            while len(self.front) <= k and self.tail is not None:
                self.peel()
            if k < len(self.front):
                return self.front[k]
            self.i.pyraise(IndexError, "list index out of range")
        if k == -1:
            if self.tail is None:
                return self.front[-1]
            if len(self.sep) == 1 and self.left < 0:
                cut = cut_last(self.i, self.tail, self.sep)
                return self.tail if cut is None else cut[1]
        return NotImplemented

    def pop(self):
        if self._segs is None and self.tail is not None and len(self.sep) == 1 and self.left < 0:
            cut = cut_last(self.i, self.tail, self.sep)
            j = self.i.ctx.jset
            if cut is None:
                t = self.tail
                j(self, "tail", None)
                return t
            j(self, "tail", cut[0])
            return cut[1]
        return NotImplemented


def length(s):
    if isinstance(s, str):
        return z3.IntVal(len(s))
    r = z3.IntVal(0)
    for c in comps(s):
        r = r + (z3.IntVal(len(c)) if isinstance(c, str) else z3.Length(c))
    return z3.simplify(r)


def cut_at(s, n):
    """(s[:n], s[n:]) if n is the position of a boundary between components (or lies in a literal), else None."""
    cs = comps(s)
    pos = z3.IntVal(0)
    for k in range(len(cs) + 1):
        d = z3.simplify(n - pos)
        if z3.is_int_value(d):
            d = d.as_long()
            if d == 0:
                return build(cs[:k]), build(cs[k:])
            if k < len(cs) and isinstance(cs[k], str) and 0 < d <= len(cs[k]):
                return build(cs[:k] + [cs[k][:d]]), build([cs[k][d:]] + cs[k + 1:])
        if k < len(cs):
            pos = pos + (z3.IntVal(len(cs[k])) if isinstance(cs[k], str) else z3.Length(cs[k]))
    return None
