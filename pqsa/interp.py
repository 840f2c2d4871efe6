"""Expressions and statements of the value-flow analysis (see pqsa.core)."""
import ast
import builtins
from fractions import Fraction

from .core import INF, Effect, InterpBase, LoopPath, NoVal, State, cval, ground, nests
from .model import AnalysisError, ClassInfo, FuncInfo
from .values import (FALSE, IM, K, NONE, PI, SQRT2, TRUE, BoundExt, ClsV, Exc, ExtV, FnV, ModV, Ref, SuperV, T, Val,
                     const_of, contains, from_poly, is_num, is_tuple, numval, padd, pmul, pscale, psub, subst, to_poly, tup, walk)

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift',
          '>>': 'rshift', '|': 'or', '&': 'and', '^': 'xor', '@': 'matmul'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}


def is_gen(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


from . import core as _core  # noqa: E402

_core._is_gen = is_gen


class Interp(InterpBase):
    # ------------------------------------------------------------------ expressions
    def evs(self, exprs, st):
        """Evaluate expressions left to right -> [(state, [values] | Exc)]"""
        outs = [(st, [])]
        for e in exprs:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                for s2, v in self.eval(e, s):
                    nxt.append((s2, v if isinstance(v, Exc) else acc + [v]))
            outs = nxt
        return outs

    def eval(self, e, st):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, T('unknown', ast.dump(e)[:200]))]
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, complex):
            return [(st, K(e.value) if self.floats else from_poly(to_poly(K(e.value))))]
        if e.value is Ellipsis:
            return [(st, NONE)]
        return [(st, K(e.value))]

    def frame_lookup(self, st, name):
        fid = st.stack[-1][1]
        while fid is not None:
            env = self.frame(st, fid)
            if env is None:
                return None
            if name in env:
                return env[name]
            fid = env.get('$closure')
        return None

    def e_Name(self, e, st):
        v = self.frame_lookup(st, e.id)
        if v is not None:
            return [(st, v)]
        return [(st, self.global_name(st, e.id))]

    def global_name(self, st, name):
        fi = st.stack[-1][0]
        r = self.prog.lookup(fi.module, name)
        if r is None:
            if name == '__name__':
                return K(fi.module.name)
            return ExtV('builtins.' + name)
        return self.from_lookup(r, f'{fi.module.name}.{name}', st)

    def e_Attribute(self, e, st):
        outs = []
        for s, v in self.eval(e.value, st):
            if isinstance(v, Exc):
                outs.append((s, v))
            else:
                outs += self.get_attr(s, v, e.attr, e)
        return outs

    def e_Tuple(self, e, st):
        return self._seq(e, st, True)

    def e_List(self, e, st):
        return self._seq(e, st, False)

    def e_Set(self, e, st):
        outs = []
        for s, v in self._seq(e, st, False):
            outs += [(s, v)] if isinstance(v, Exc) else self.make_set(s, s.lists[v], e)
        return outs

    def _seq(self, e, st, astuple):
        outs = []
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            if isinstance(vs, Exc):
                outs.append((s, vs))
                continue
            segs = []
            for x, v in zip(e.elts, vs):
                segs += self.segs(s, v) if isinstance(x, ast.Starred) else [('item', v)]
            if astuple and all(x[0] == 'item' for x in segs):
                outs.append((s, tup(*[x[1] for x in segs])))
            else:
                outs.append((s, self.new_list(s, segs)))
        return outs

    def e_Dict(self, e, st):
        outs = []
        keys = [k for k in e.keys if k is not None]
        for s, ks in self.evs(keys, st):
            if isinstance(ks, Exc):
                outs.append((s, ks))
                continue
            for s2, vs in self.evs(e.values, s):
                if isinstance(vs, Exc):
                    outs.append((s2, vs))
                    continue
                items, ki = [], iter(ks)
                opn = None
                for k, v in zip(e.keys, vs):
                    if k is None:
                        dk = s2.dkeys.get(v, self.g_dkeys.get(v))
                        if dk is None:
                            opn = v
                        else:
                            items += [(x, self.ditem(s2, v, x)) for x in dk]
                    else:
                        items.append((next(ki), v))
                d = self.new_dict(s2, items)
                if opn is not None:
                    s2.dkeys.pop(d)
                outs.append((s2, d))
        return outs

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        outs, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            for s2, v in self.eval(e.values[i], s):
                if isinstance(v, Exc) or i == len(e.values) - 1:
                    outs.append((s2, v))
                    continue
                for s3, b in self.truth(v, s2):
                    if isinstance(b, Exc):
                        outs.append((s3, b))
                    elif b == (not isand):
                        tv = v if not self._boolish(v) else K(b)
                        outs.append((s3, tv))
                    else:
                        work.append((s3, i + 1))
        return outs

    def _boolish(self, v):
        return isinstance(v, T) and v.op in ('cmp', 'isinst', 'in', 'not', 'any', 'and', 'or')

    def e_UnaryOp(self, e, st):
        outs = []
        for s, v in self.eval(e.operand, st):
            if isinstance(v, Exc):
                outs.append((s, v))
            elif isinstance(e.op, ast.Not):
                for s2, b in self.truth(v, s):
                    outs.append((s2, b if isinstance(b, Exc) else K(not b)))
            elif isinstance(e.op, ast.USub):
                ci = self.class_of(v)
                m = self.prog.find_method(ci, '__neg__') if ci is not None else None
                if m is not None:
                    outs += self.call_fn(s, FnV(m, v), [], {}, e)
                elif isinstance(v, K) and isinstance(v.v, float) and v.v in (INF, -INF):
                    outs.append((s, K(-v.v)))
                else:
                    outs.append((s, self.fl(from_poly(pscale(to_poly(v), Fraction(-1))))))
            elif isinstance(e.op, ast.UAdd):
                outs.append((s, v))
            else:
                outs.append((s, K(~v.v) if isinstance(v, K) and isinstance(v.v, int) else T('invert', v)))
        return outs

    def e_BinOp(self, e, st):
        outs = []
        for s, vs in self.evs([e.left, e.right], st):
            if isinstance(vs, Exc):
                outs.append((s, vs))
            else:
                outs += self.binop(s, BINOPS[type(e.op)], vs[0], vs[1], e)
        return outs

    def binop(self, st, op, a, b, node, inplace=False):
        ca, cb = self.class_of(a), self.class_of(b)
        if op == '|' and not self._setlike(st, a, b):
            isgate = ca is None or self.prog.find_method(ca, '__or__') is not None
            if isgate and not self.inline_or and not (isinstance(a, K) and isinstance(b, K)) and not is_num(a):
                self.effect(st, 'apply', node, target=a, args=(self.freeze(st, b),), data=b)
                return [(st, NONE)]
            if self.inline_or and ca is None and isinstance(a, T) and a.op in ('global', 'call', 'attr', 'elem', 'fresh', 'get') and not is_num(a) and not is_num(b) \
                    and not isinstance(b, K) and self.kind(b) in (None, 'tuple', 'list'):
                self.effect(st, 'send', node, target=a, args=(self.freeze(st, b),), data=None)
        names = (['__i%s__' % DUNDER[op]] if inplace else []) + ['__%s__' % DUNDER[op]]
        if ca is not None:
            for n in names:
                m = self.prog.find_method(ca, n)
                if m is not None:
                    return self.call_fn(st, FnV(m, a), [b], {}, node)
                at = self.prog.find_attr(ca, n)
                if at is not None and isinstance(at[1], ast.Name):
                    m = self.prog.find_method(ca, at[1].id)
                    if m is not None:
                        return self.call_fn(st, FnV(m, a), [b], {}, node)
        if cb is not None:
            m = self.prog.find_method(cb, '__r%s__' % DUNDER[op])
            if m is not None:
                return self.call_fn(st, FnV(m, b), [a], {}, node)
        ka, kb = self.kind(a), self.kind(b)
        if inplace and op == '+' and ka == 'list' and isinstance(a, Ref):
            st.lists[a] = self.segs(st, a) + self.segs(st, b)
            self.effect(st, 'mutate', node, target=a, name='extend', args=(self.freeze(st, b),))
            return [(st, a)]
        if inplace and op in ('|', '+') and ka is None and not is_num(a) and not isinstance(a, K) and (kb in ('list', 'set')):
            st.lists[a] = self.segs(st, a) + self.segs(st, b)
            self.effect(st, 'mutate', node, target=a, name='extend', args=(self.freeze(st, b),))
            return [(st, a)]
        if op == '+' and (ka in ('list', 'tuple') or kb in ('list', 'tuple') or self._seqlike(a) and self._seqlike(b)):
            if ka == 'tuple' and kb == 'tuple':
                return [(st, tup(*(a.args + b.args)))]
            return [(st, self.new_list(st, self.segs(st, a) + self.segs(st, b)))]
        if op == '*' and (ka in ('list', 'tuple') or kb in ('list', 'tuple')):
            l, n = (a, b) if ka in ('list', 'tuple') else (b, a)
            c = const_of(n)
            if c is not None and self.items(st, l) is not None and len(self.items(st, l)) * c <= 4096:
                return [(st, self.new_list(st, self.segs(st, l) * int(c)))]
            it = self.items(st, l)
            if it is not None and len(it) == 1:
                return [(st, self.new_list(st, [('each', T('range', K(0), n, K(1)), ((frozenset(), (('item', it[0]),)),), True)]))]
            return [(st, T('seqmul', self.freeze(st, l), n))]
        if ka == 'set' or kb == 'set' or op in ('&', '|', '^') and self._setlike(st, a, b):
            name = {'|': 'union', '&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}.get(op)
            if name:
                r = self.setop(st, name, a, b)
                if inplace and isinstance(a, Ref):
                    st.lists[a] = self.segs(st, r)
                    self.effect(st, 'mutate', node, target=a, name=name, args=(self.freeze(st, b),))
                    return [(st, a)]
                return [(st, r)]
        if isinstance(a, K) and isinstance(a.v, str) or isinstance(a, T) and a.op in ('fstr', 'format', 'join', 'str', 'strop') or \
                isinstance(b, K) and isinstance(b.v, str):
            if op == '+':
                return [(st, self.fstr([a, b]))]
            if op == '%':
                return [(st, T('format%', a, self.freeze(st, b)))]
            if op == '*' and isinstance(a, K) and const_of(b) is not None:
                return [(st, K(a.v * int(const_of(b))))]
            if op == '*' and isinstance(b, K) and const_of(a) is not None:
                return [(st, K(b.v * int(const_of(a))))]
            return [(st, T('strmul', a, b))]
        if (ca is not None and isinstance(b, K) or cb is not None and isinstance(a, K)) and self.kind(a) is None and self.kind(b) is None and not isinstance(a, T) and not isinstance(b, T) \
                and not any(self.prog.has_ext_base(c) for c in (ca, cb) if c is not None):
            return [(st, Exc('TypeError', self.loc(st, node)))]
        return [(st, self.arith(op, a, b))]

    def _seqlike(self, v):
        return isinstance(v, T) and v.op in ('slice_of', 'list', 'splat', 'tuplev', 'rest')

    def _setlike(self, st, a, b):
        if self.kind(a) in ('set', 'dict') or self.kind(b) == 'set':
            return True
        for x in (a, b):
            if isinstance(x, T) and (x.op in ('keys', 'setop') or x.op == 'call' and isinstance(x.args[0], BoundExt) and
                                     x.args[0].name in ('keys', 'union', 'intersection', 'difference')):
                return True
        return False

    def matarith(self, op, a, b):
        ma, mb = (x.args[0] if isinstance(x, T) and x.op == 'matrix' else None for x in (a, b))
        sa, sb = (isinstance(x, K) and isinstance(x.v, (int, float, complex)) or is_num(x) or isinstance(x, T) and x.op in ('sym', 'attr') for x in (a, b))
        if op in '+-' and ma is not None and mb is not None and len(ma) == len(mb) and len(ma[0]) == len(mb[0]):
            return T('matrix', tuple(tuple(self.arith(op, x, y) for x, y in zip(r, q)) for r, q in zip(ma, mb)))
        if op == '*' and sa and mb is not None:
            return T('matrix', tuple(tuple(self.arith('*', a, x) for x in r) for r in mb))
        if op in '*/' and ma is not None and sb:
            return T('matrix', tuple(tuple(self.arith(op, x, b) for x in r) for r in ma))
        if op in '*@' and ma is not None and mb is not None and len(ma[0]) == len(mb):
            out = []
            for r in ma:
                row = []
                for j in range(len(mb[0])):
                    acc = {}
                    for k, x in enumerate(r):
                        acc = padd(acc, pmul(to_poly(x), to_poly(mb[k][j])))
                    row.append(from_poly(acc))
                out.append(tuple(row))
            return T('matrix', tuple(out))
        return T('matop', op, a, b)

    def arith(self, op, a, b):
        if self.floats and op in '+-*/**//%':
            x, y = cval(a), cval(b)
            if x is not None and y is not None and not (isinstance(x, int) and isinstance(y, int)):
                try:
                    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '**': lambda: x ** y,
                         '//': lambda: x // y, '%': lambda: x % y}[op]()
                    return K(r.real if isinstance(r, complex) and not r.imag else r)
                except (ValueError, OverflowError, TypeError, KeyError, ZeroDivisionError):
                    pass
        return self.fl(self._arith(op, a, b)) if self.floats else self._arith(op, a, b)

    def _arith(self, op, a, b):
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)) and op not in '+-*/':
            try:
                f = {'//': lambda x, y: x // y, '%': lambda x, y: x % y, '**': lambda x, y: x ** y if abs(y) < 64 else None, '<<': lambda x, y: x << y,
                     '>>': lambda x, y: x >> y, '|': lambda x, y: x | y, '&': lambda x, y: x & y, '^': lambda x, y: x ^ y}[op]
                r = f(a.v, b.v)
                if r is not None and not isinstance(r, complex):
                    return K(r)
            except Exception:
                return T('binop', op, a, b)
        if isinstance(a, T) and a.op in ('matrix', 'matop') or isinstance(b, T) and b.op in ('matrix', 'matop'):
            return self.matarith(op, a, b)
        if op == '+':
            return from_poly(padd(to_poly(a), to_poly(b)))
        if op == '-':
            return from_poly(psub(to_poly(a), to_poly(b)))
        if op == '*':
            return from_poly(pmul(to_poly(a), to_poly(b)))
        if op == '/':
            pb = to_poly(b)
            c = const_of(b)
            if c:
                return from_poly(pscale(to_poly(a), 1 / c))
            if len(pb) == 1:
                (m, k), = pb.items()
                if m == ((SQRT2, 1),):
                    return from_poly(pmul(to_poly(a), {((SQRT2, 1),): Fraction(1, 2) / k}))
                if m == ((IM, 1),):
                    return from_poly(pmul(to_poly(a), {((IM, 1),): Fraction(-1) / k}))
            if a == b:
                return K(1)
            return from_poly(pmul(to_poly(a), {((T('inv', b), 1),): Fraction(1)})) if pb else T('binop', '/', a, b)
        if op == '**':
            c = const_of(b)
            if c is not None and c.denominator == 1 and 0 <= c <= 8:
                r = {(): Fraction(1)}
                for _ in range(int(c)):
                    r = pmul(r, to_poly(a))
                return from_poly(r)
            if c == Fraction(1, 2):
                return self.numfun('sqrt', a)
            return T('pow', a, b)
        if op in ('&', '|', '^'):
            if a == b:
                return a if op != '^' else K(0)
            x, y = sorted((a, b), key=repr)
            return T('bit', op, x, y)
        if op in ('%', '//'):
            x, y = numval(a), numval(b)
            if x is not None and y:
                k = int((x / y + 1e-12) // 1)
                return K(k) if op == '//' else from_poly(psub(to_poly(a), pscale(to_poly(b), Fraction(k))))
        return T({'//': 'floordiv', '%': 'mod', '<<': 'shl', '>>': 'shr', '@': 'matmul'}[op], a, b)

    def e_Compare(self, e, st):
        outs = []
        for s, vs in self.evs([e.left] + e.comparators, st):
            if isinstance(vs, Exc):
                outs.append((s, vs))
                continue
            work = [(s, 0)]
            n = len(e.ops)
            while work:
                s1, i = work.pop()
                for s2, r in self.compare(s1, CMPOPS[type(e.ops[i])], vs[i], vs[i + 1], e):
                    if isinstance(r, Exc) or i == n - 1:
                        outs.append((s2, r))
                        continue
                    for s3, b in self.truth(r, s2):
                        if b is True:
                            work.append((s3, i + 1))
                        else:
                            outs.append((s3, FALSE))
        return outs

    def try_eq(self, st, tries, neg, node):
        """Rich comparison: the methods in turn until one is implemented, else identity."""
        if not tries:
            return [(st, K(neg))]
        out = []
        x, y, m = tries[0]
        for s, v in self.call_fn(st, FnV(m, x), [y], {}, node):
            if isinstance(v, ExtV) and v.name == 'builtins.NotImplemented':
                out += self.try_eq(s, tries[1:], neg, node)
            else:
                out.append((s, self.negate(v) if neg and not isinstance(v, Exc) else v))
        return out

    def compare(self, st, op, a, b, node):
        neg = op in ('!=', 'not in', 'is not')
        base = {'!=': '==', 'not in': 'in', 'is not': 'is'}.get(op, op)
        if base == 'in':
            cb = self.class_of(b)
            m = self.prog.find_method(cb, '__contains__') if cb is not None else None
            if m is not None:
                res = self.call_fn(st, FnV(m, b), [a], {}, node)
            else:
                h = self.hooks.get('in')
                r = h(self, st, a, b, node) if h else None
                it = self.items(st, b) if r is None and (self.kind(b) in ('list', 'tuple', 'set', 'dict') or is_tuple(b)) else None
                if it is None and r is None and self.kind(b) == 'dict':
                    it = st.dkeys.get(b, self.g_dkeys.get(b))
                if it is not None and any(self.class_of(x) is not None or self.has_eq(x) for x in list(it) + [a]) and len(it) <= 40:
                    res, work = [], [(st, 0)]
                    while work:
                        s1, i = work.pop()
                        if i == len(it):
                            res.append((s1, FALSE))
                            continue
                        for s2, e in ([(s1, TRUE)] if it[i] == a else self.compare(s1, '==', a, it[i], node)):
                            if isinstance(e, Exc):
                                res.append((s2, e))
                                continue
                            for s3, t in self.truth(e, s2):
                                if t is True:
                                    res.append((s3, TRUE))
                                elif t is False:
                                    work.append((s3, i + 1))
                                else:
                                    res.append((s3, t))
                else:
                    res = [(st, r if r is not None else self.in_term(st, a, b))]
        elif base in ('==', 'is'):
            if base == '==':
                h = self.hooks.get('eq')
                if h is not None:
                    r = h(self, st, a, b, node)
                    if r is not None:
                        return [(s, self.negate(v) if neg and not isinstance(v, Exc) else v) for s, v in r]
                ca, cb = self.class_of(a), self.class_of(b)
                tries = [(x, y, self.prog.find_method(c, '__eq__')) for x, y, c in ((a, b, ca), (b, a, cb)) if c is not None and a != b]
                if len(tries) == 2 and ca is not cb and self.prog.is_sub(cb, ca) and tries[0][2] is not tries[1][2]:
                    tries.reverse()  # the reflected method of a subclass goes first
                tries = [t for t in tries if t[2] is not None]
                if tries:
                    return self.try_eq(st, tries, neg, node)
                if (ca is not None or cb is not None) and a != b and not isinstance(a, T) and not isinstance(b, T) \
                        and self.kind(a) is None and self.kind(b) is None:
                    return [(st, K(neg))]
                if isinstance(a, T) and a.op == 'matrix' and isinstance(b, T) and b.op == 'matrix':
                    return [(st, T('not', T('mateq', a, b)) if neg else T('mateq', a, b))]
            if base == 'is' and isinstance(a, Ref) and isinstance(b, Ref):
                res = [(st, K(a == b))]
            elif base == 'is' and (isinstance(a, K) and b == NONE or isinstance(b, K) and a == NONE):
                res = [(st, K(a == b))]
            elif isinstance(a, Ref) and self.class_of(a) is not None and b == NONE or isinstance(b, Ref) and self.class_of(b) is not None and a == NONE:
                res = [(st, FALSE)]
            elif (self.class_of(a) is not None and b == NONE) or (self.class_of(b) is not None and a == NONE):
                res = [(st, FALSE)]
            elif base == 'is':
                r = self.eq_known(st, a, b)
                res = [(st, K(r) if r is not None else T('cmp', 'is', a, b))]
            else:
                res = self.eq_lists(st, a, b, node)
        else:
            for x, y, o in ((a, b, base), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[base])):
                c = self.class_of(x)
                m = self.prog.find_method(c, {'<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}[o]) if c is not None else None
                if m is not None:
                    return self.call_fn(st, FnV(m, x), [y], {}, node)
            if isinstance(a, K) and isinstance(b, K):
                try:
                    res = [(st, K({'<': a.v < b.v, '<=': a.v <= b.v, '>': a.v > b.v, '>=': a.v >= b.v}[base]))]
                except TypeError:
                    res = [(st, Exc('TypeError', self.loc(st, node)))]
            else:
                res = [(st, T('cmp', base, a, b))]
        return [(s, self.negate(v) if neg and not isinstance(v, Exc) else v) for s, v in res]

    def eq_lists(self, st, a, b, node):
        ia = self.items(st, a) if self.kind(a) in ('list', 'tuple') else None
        ib = self.items(st, b) if self.kind(b) in ('list', 'tuple') else None
        if self.kind(a) == 'dict' == self.kind(b):
            ka, kb = (st.dkeys.get(x, self.g_dkeys.get(x)) for x in (a, b))
            if ka is not None and kb is not None and all(ground(k) and not isinstance(k, Ref) for k in list(ka) + list(kb)):
                if set(ka) != set(kb):
                    return [(st, FALSE)]
                vals = [[st.ditems.get((x, k), self.g_ditems.get((x, k))) for k in ka] for x in (a, b)]
                if None not in vals[0] + vals[1]:
                    ia, ib = vals
        if ia is not None and ib is not None and self.kind(a) == self.kind(b):
            if len(ia) != len(ib):
                return [(st, FALSE)]
            outs, work = [], [(st, 0)]
            while work:
                s, i = work.pop()
                if i == len(ia):
                    outs.append((s, TRUE))
                    continue
                for s2, r in self.compare(s, '==', ia[i], ib[i], node):
                    if isinstance(r, Exc):
                        outs.append((s2, r))
                        continue
                    for s3, t in self.truth(r, s2):
                        if t is True:
                            work.append((s3, i + 1))
                        else:
                            outs.append((s3, FALSE))
            return outs
        if self.kind(a) in ('set', 'dict') and self.kind(b) == self.kind(a):
            r = self.eq_known(st, a, b)
            if r is not None:
                return [(st, K(r))]
        return [(st, self.eq_term(st, self.freeze(st, a), self.freeze(st, b)))]

    def negate(self, v):
        if isinstance(v, K):
            return K(not v.v)
        if isinstance(v, T) and v.op == 'not':
            return v.args[0]
        return T('not', v)

    def e_IfExp(self, e, st):
        outs = []
        for s, c in self.eval(e.test, st):
            if isinstance(c, Exc):
                outs.append((s, c))
                continue
            for s2, b in self.truth(c, s):
                outs += [(s2, b)] if isinstance(b, Exc) else self.eval(e.body if b else e.orelse, s2)
        return outs

    def e_Call(self, e, st):
        # super() without arguments and calls through attributes of known modules are resolved by get_attr
        outs = []
        for s, f in self.eval(e.func, st):
            if isinstance(f, Exc):
                outs.append((s, f))
                continue
            exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            for s2, vs in self.evs(exprs, s):
                if isinstance(vs, Exc):
                    outs.append((s2, vs))
                    continue
                args = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        for sg in self.segs(s2, v):
                            args.append(sg[1] if sg[0] == 'item' else ('*', sg[1]))
                    else:
                        args.append(v)
                kw = {}
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        ks = s2.dkeys.get(v, self.g_dkeys.get(v))
                        if ks is not None and all(isinstance(x, K) for x in ks):
                            for x in ks:
                                kw[x.v] = self.ditem(s2, v, x)
                        else:
                            kw['**'] = v
                    else:
                        kw[k.arg] = v
                outs += self.call_value(s2, f, args, kw, e)
        return outs

    def e_Subscript(self, e, st):
        outs = []
        for s, vs in self.evs([e.value, e.slice], st):
            if isinstance(vs, Exc):
                outs.append((s, vs))
            else:
                outs += self.subscript(s, vs[0], vs[1], e)
        return outs

    def e_Slice(self, e, st):
        outs = []
        exprs = [x for x in (e.lower, e.upper, e.step) if x is not None]
        for s, vs in self.evs(exprs, st):
            if isinstance(vs, Exc):
                outs.append((s, vs))
                continue
            it = iter(vs)
            outs.append((s, T('slice', *[next(it) if x is not None else NONE for x in (e.lower, e.upper, e.step)])))
        return outs

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_JoinedStr(self, e, st):
        outs = [(st, [])]
        for p in e.values:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                elif isinstance(p, ast.Constant):
                    nxt.append((s, acc + [K(p.value)]))
                else:
                    for s2, v in self.eval(p.value, s):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        elif p.format_spec is not None or p.conversion != -1:
                            spec, sv = '', [K('')]
                            if p.format_spec is not None:
                                spec = ast.unparse(p.format_spec)[2:-1]
                                sv = [x for _, x in self.eval(p.format_spec, s2)]
                            if isinstance(v, T) and v.op == 'poly':
                                try:
                                    v = K(self.pyval(s2, v))
                                except NoVal:
                                    pass
                            if isinstance(v, K) and len(sv) == 1 and isinstance(sv[0], K) and isinstance(sv[0].v, str):
                                x = {-1: lambda z: z, 115: str, 114: repr, 97: ascii}[p.conversion](v.v)
                                try:
                                    nxt.append((s2, acc + [K(format(x, sv[0].v))]))
                                except (ValueError, TypeError):
                                    nxt.append((s2, Exc('ValueError', self.loc(s2, e))))
                                continue
                            nxt.append((s2, acc + [T('fmt', v, spec, p.conversion)]))
                        else:
                            if self.kind(v) in ('list', 'dict', 'set') or is_tuple(v) or isinstance(v, T) and v.op == 'poly':
                                try:
                                    v = K(str(self.pyval(s2, v)))
                                except NoVal:
                                    pass
                            nxt.append((s2, acc + [v]))
            outs = nxt
        return [(s, acc if isinstance(acc, Exc) else self.fstr(acc)) for s, acc in outs]

    def fstr(self, parts):
        flat = []
        for p in parts:
            for q in (p.args if isinstance(p, T) and p.op == 'fstr' else [p]):
                if isinstance(q, T) and q.op == 'str' and len(q.args) == 1:
                    q = q.args[0]
                if isinstance(q, K):
                    q = K(str(q.v))
                    if flat and isinstance(flat[-1], K):
                        flat[-1] = K(flat[-1].v + q.v)
                        continue
                flat.append(q)
        flat = [x for x in flat if x != K('')] or [K('')]
        if len(flat) == 1 and isinstance(flat[0], K):
            return flat[0]
        return T('fstr', *flat)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Lambda(self, e, st):
        fid = st.stack[-1][1]
        st.notes[('closure', fid)] = True
        fi = FuncInfo(st.stack[-1][0].module, e, cls=None, qual=st.stack[-1][0].qual + '.<lambda>')
        return [(s, d if isinstance(d, Exc) else FnV(self._fi(e, fi), None, fid, d)) for s, d in self.defaults(e, st)]

    def _fi(self, node, fi):
        cache = self.__dict__.setdefault('_ficache', {})
        return cache.setdefault(id(node), fi)

    def e_NamedExpr(self, e, st):
        outs = []
        for s, v in self.eval(e.value, st):
            if not isinstance(v, Exc):
                s.frames[s.stack[-1][1]][e.target.id] = v
            outs.append((s, v))
        return outs

    def e_Yield(self, e, st):
        outs = []
        for s, v in (self.eval(e.value, st) if e.value is not None else [(st, NONE)]):
            if not isinstance(v, Exc):
                y = s.frames[s.stack[-1][1]]['$yield']
                s.lists[y] = s.lists[y] + (('item', v),)
                v = NONE
            outs.append((s, v))
        return outs

    def e_YieldFrom(self, e, st):
        outs = []
        for s, v in self.eval(e.value, st):
            if not isinstance(v, Exc):
                y = s.frames[s.stack[-1][1]]['$yield']
                s.lists[y] = s.lists[y] + self.segs(s, v)
                v = NONE
            outs.append((s, v))
        return outs

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    # ------------------------------------------------------------------ comprehensions
    def comp(self, e, st, kind):
        """Comprehension -> list of segments."""
        fid0 = st.stack[-1][1]
        fid = next(self.uid)
        st.frames[fid] = {'$closure': fid0, '$fi': st.stack[-1][0]}
        st.stack = st.stack + ((st.stack[-1][0], fid),)

        def level(s, i):
            if i == len(e.generators):
                if kind == 'dict':
                    r = self.evs([e.key, e.value], s)
                    return [(s2, v if isinstance(v, Exc) else (('item', tup(*v)),)) for s2, v in r]
                return [(s2, v if isinstance(v, Exc) else (('item', v),)) for s2, v in self.eval(e.elt, s)]
            g = e.generators[i]
            outs = []
            for s2, it in self.eval(g.iter, s):
                if isinstance(it, Exc):
                    outs.append((s2, it))
                    continue

                def body(s3, x, g=g, i=i):
                    r = []
                    for s4, ex in self.assign(g.target, x, s3, g.target):
                        if isinstance(ex, Exc):
                            r.append((s4, ex))
                            continue
                        cur = [(s4, True)]
                        for c in g.ifs:
                            nxt = []
                            for s5, ok in cur:
                                if ok is not True:
                                    nxt.append((s5, ok))
                                    continue
                                for s6, v in self.eval(c, s5):
                                    if isinstance(v, Exc):
                                        nxt.append((s6, v))
                                    else:
                                        nxt += self.truth(v, s6)
                            cur = nxt
                        for s5, ok in cur:
                            if isinstance(ok, Exc):
                                r.append((s5, ok))
                            elif ok:
                                r += level(s5, i + 1)
                            else:
                                r.append((s5, ()))
                    return r
                outs += self.each(s2, it, body, e)
            return outs

        res = []
        for s, segs in level(st, 0):
            s.stack = s.stack[:-1]
            if not nests(e):
                s.frames.pop(fid, None)
            if isinstance(segs, Exc):
                res.append((s, segs))
            elif kind == 'dict':
                if all(x[0] == 'item' for x in segs):
                    d = self.new_dict(s)
                    for x in segs:
                        k, v = x[1].args
                        hit = next((kk for kk in s.dkeys[d] if self.eq_known(s, kk, k) is True), None)
                        if hit is None:
                            s.dkeys[d] += (k,)
                        s.ditems[(d, k if hit is None else hit)] = v
                    res.append((s, d))
                else:
                    res.append((s, T('dictcomp', tuple(self._fseg(s, y, 0) for y in segs))))
            elif kind == 'set':
                res += self.make_set(s, segs, e)
            else:
                res.append((s, self.new_list(s, segs)))
        return res

    def comp_over(self, st, it, body, node):
        def b(s, x):
            return [(s2, v if isinstance(v, Exc) else tuple(('item', y) for y in v)) for s2, v in body(s, x)]
        return [(s, v if isinstance(v, Exc) else self.new_list(s, v)) for s, v in self.each(st, it, b, node)]

    def each(self, st, it, body, node):
        """Concatenation of body(x) for all x of `it`; body(state, x) -> [(state, segs|Exc)]"""
        outs = [(st, ())]
        for kind, elem, seg in self.iter_parts(st, it):
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                if kind == 'item':
                    for s2, v in body(s, elem):
                        nxt.append((s2, v if isinstance(v, Exc) else acc + v))
                else:
                    facts0 = dict(s.facts)
                    mark = len(s.eff)
                    branches, eff, after = [], [], None
                    s1 = s.fork()
                    pre = self._pre_elem(s1, seg)
                    for sx, exx in pre:
                        for s2, v in body(sx, exx):
                            new = frozenset((f, b) for f, b in s2.facts.items() if facts0.get(f) is None)
                            if isinstance(v, Exc):
                                s2.facts[T('any', seg[1], frozenset([new]))] = True
                                nxt.append((s2, v))
                                continue
                            branches.append((new, v))
                            if len(s2.eff) > mark:
                                eff.append(LoopPath(new, s2.eff[mark:], None))
                            if after is None:
                                after = s2
                    if eff:
                        self.effect(s, 'loop', node, target=seg[1], data=eff, args=(elem,))
                    # side effects of the body on containers of the enclosing function are forgotten
                    if after is not None:
                        for d in ('lists', 'attrs', 'ditems'):
                            old, newd = getattr(s, d), getattr(after, d)
                            for k, v in newd.items():
                                if k not in old:
                                    old[k] = v
                        for k, v in after.dkeys.items():
                            s.dkeys.setdefault(k, v)
                        for k, v in after.frames.items():
                            s.frames.setdefault(k, v)
                    acc2 = acc
                    keep = [(c, v) for c, v in branches if v]
                    if len(branches) == 1 and keep and keep[0][1] == (('item', elem),):
                        acc2 = acc + (('splat', seg[1]),)  # identity comprehension
                    elif keep:
                        always = len({frozenset(c) for c, _ in branches}) == len(branches) and all(v for _, v in branches)
                        acc2 = acc + (('each', seg[1], tuple(keep), always),)
                    nxt.append((s, acc2))
            outs = nxt
        return outs

    def _pre_elem(self, st, seg):
        """Element(s) of an abstract segment with the facts under which they occur."""
        if seg[0] == 'splat':
            return [(st, self.elem(seg[1]))]
        outs = []
        for conds, segs in seg[2]:
            s = st.fork()
            for f, b in conds:
                s.facts[f] = b
            for x in segs:
                if x[0] == 'item':
                    outs.append((s.fork(), x[1]))
                else:
                    outs += self._pre_elem(s.fork(), x)
        return outs

    def elem(self, it):
        if isinstance(it, T):
            if it.op == 'zip':
                return tup(*[self.elem(x) for x in it.args])
            if it.op == 'enumerate':
                return tup(self.arith('+', T('idx', it.args[0]), it.args[1]), self.elem(it.args[0]))
            if it.op == 'range':
                a, b, s = it.args
                if isinstance(b, T) and b.op == 'len' and a == K(0) and s == K(1):
                    return T('idx', b.args[0])
                return T('elem', it)
            if it.op in ('reversed', 'sorted', 'list', 'tuplev') and len(it.args) == 1:
                if it.op == 'list':
                    return T('elem', it)
                return self.elem(it.args[0])
            if it.op == 'keys':
                return T('elem', it.args[0])
            if it.op == 'items':
                return tup(T('elem', it.args[0]), T('elem', T('values', it.args[0])))
            if it.op == 'deepcopy':
                return T('deepcopy', self.elem(it.args[0]))
        return T('elem', it)

    def iter_parts(self, st, it):
        """[('item', value, seg) | ('abs', element, seg)]"""
        if isinstance(it, T) and it.op in ('zip', 'enumerate', 'reversed', 'items', 'keys', 'values', 'range', 'sorted'):
            segs = self.segs(st, it)
            if it.op == 'enumerate':
                inner = self.segs(st, it.args[0])
                if not (len(inner) == 1 and inner[0] == ('splat', it.args[0])):
                    # mixed content: index unknown behind the first abstract part
                    out, n, known = [], 0, True
                    for x in inner:
                        if x[0] == 'item':
                            out.append(('item', tup(self.arith('+', it.args[1], K(n)) if known else self.fresh('i'), x[1]), x))
                            n += 1
                        else:
                            known = False
                            el = self.elem(x[1]) if x[0] == 'splat' else None
                            seg = ('splat', T('enumerate', x[1], it.args[1])) if n == 0 and x[0] == 'splat' else x
                            out.append(('abs', tup(self.fresh('i'), el), seg))
                    return out
        else:
            segs = self.segs(st, it)
        out = []
        for x in segs:
            if x[0] == 'item':
                out.append(('item', x[1], x))
            elif x[0] == 'splat':
                out.append(('abs', self.elem(x[1]), x))
            else:
                out.append(('abs', T('elem', T('each', x[1], ())), x))
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> [(state, signal)], signal None | ('ret', v) | ('break',) | ('cont',) | ('raise', Exc)"""
        live, done = [(st, None)], []
        for n in stmts:
            nxt = []
            for s, _ in live:
                for s2, sig in self.stmt(n, s):
                    (nxt if sig is None else done).append((s2, sig))
            live = nxt
            if len(live) + len(done) > self.max_paths:
                raise AnalysisError(f'more than {self.max_paths} paths in {self.fname(st)}')
            if not live:
                break
        return done + live

    def stmt(self, n, st):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return [(st, None)]
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, ('raise', v) if isinstance(v, Exc) else None) for s, v in self.eval(n.value, st)]

    def s_Pass(self, n, st):
        return [(st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.frames[st.stack[-1][1]][nm] = ModV(full) if full in self.prog.modules else ExtV(full)
        return [(st, None)]

    def s_ImportFrom(self, n, st):
        mod = st.stack[-1][0].module
        src = self.prog._abs(mod, n)
        for a in n.names:
            if src in self.prog.modules:
                v = self.mod_attr(src, a.name, st)
            else:
                v = ExtV(f'{src}.{a.name}')
            st.frames[st.stack[-1][1]][a.asname or a.name] = v
        return [(st, None)]

    def s_FunctionDef(self, n, st):
        fid = st.stack[-1][1]
        st.notes[('closure', fid)] = True
        cur = st.stack[-1][0]
        fi = self._fi(n, FuncInfo(cur.module, n, cls=None, qual=f'{cur.qual}.{n.name}'))
        outs = []
        for s, d in self.defaults(n, st):
            if isinstance(d, Exc):
                outs.append((s, ('raise', d)))
                continue
            s.frames[fid][n.name] = FnV(fi, None, fid, d)
            outs.append((s, None))
        return outs

    def defaults(self, n, st):
        """Default values of a nested function, evaluated where it is defined."""
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ds = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if not ds:
            return [(st, None)]
        return [(s, vs if isinstance(vs, Exc) else tuple(zip([k for k, _ in ds], vs))) for s, vs in self.evs([d for _, d in ds], st)]

    def s_ClassDef(self, n, st):
        cur = st.stack[-1][0]
        cache = self.__dict__.setdefault('_clscache', {})
        ci = cache.get(id(n))
        if ci is None:
            ci = cache[id(n)] = self.prog._class(cur.module, n)
        st.frames[st.stack[-1][1]][n.name] = ClsV(ci)
        return [(st, None)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('raise', v) if isinstance(v, Exc) else ('ret', v)) for s, v in self.eval(n.value, st)]

    def s_Break(self, n, st):
        return [(st, ('break',))]

    def s_Continue(self, n, st):
        return [(st, ('cont',))]

    def s_Raise(self, n, st):
        if n.exc is None:
            cur = st.notes.get('exc')
            e = cur if cur is not None else Exc('Exception', self.loc(st, n))
            self.effect(st, 'raise', n, name=e.name)
            return [(st, ('raise', e))]
        outs = []
        ex = n.exc
        args = []
        if isinstance(ex, ast.Call):
            args, ex = ex.args, ex.func
        for s, f in self.eval(ex, st):
            if isinstance(f, Exc):
                outs.append((s, ('raise', f)))
                continue
            for s2, vs in self.evs([a.value if isinstance(a, ast.Starred) else a for a in args], s):
                if isinstance(vs, Exc):
                    outs.append((s2, ('raise', vs)))
                    continue
                if isinstance(f, ClsV):
                    c = f.ci
                elif isinstance(f, ExtV):
                    c = f.name.replace('builtins.', '')
                elif isinstance(f, T) and f.op == 'excval':
                    c = s2.notes.get(('excval', f), f.args[0])
                    vs = s2.notes.get(('excargs', f)) or vs
                elif isinstance(f, T) and f.op == 'exc':
                    c = f.args[0]
                    vs = vs or list(f.args[1:])
                elif self.class_of(f) is not None:
                    c = self.class_of(f)
                else:
                    c = 'Exception'
                self.effect(s2, 'raise', n, name=c if isinstance(c, str) else c.name, args=tuple(self.freeze(s2, v) for v in vs))
                outs.append((s2, ('raise', Exc(c, self.loc(s2, n), tuple(vs)))))
        return outs

    def s_Assert(self, n, st):
        outs = []
        for s, v in self.eval(n.test, st):
            if isinstance(v, Exc):
                outs.append((s, ('raise', v)))
                continue
            for s2, b in self.truth(v, s):
                outs.append((s2, None if b is True else ('raise', Exc('AssertionError', self.loc(s2, n)))))
        return outs

    def s_Assign(self, n, st):
        outs = []
        for s, v in self.eval(n.value, st):
            if isinstance(v, Exc):
                outs.append((s, ('raise', v)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, sig in cur:
                    if sig is not None:
                        nxt.append((s2, sig))
                        continue
                    for s3, r in self.assign(t, v, s2, n):
                        nxt.append((s3, ('raise', r) if isinstance(r, Exc) else None))
                cur = nxt
            outs += cur
        return outs

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        outs = []
        for s, v in self.eval(n.value, st):
            if isinstance(v, Exc):
                outs.append((s, ('raise', v)))
                continue
            for s2, r in self.assign(n.target, v, s, n):
                outs.append((s2, ('raise', r) if isinstance(r, Exc) else None))
        return outs

    def s_AugAssign(self, n, st):
        load = _as_load(n.target)
        outs = []
        for s, vs in self.evs([load, n.value], st):
            if isinstance(vs, Exc):
                outs.append((s, ('raise', vs)))
                continue
            for s2, v in self.binop(s, BINOPS[type(n.op)], vs[0], vs[1], n, inplace=True):
                if isinstance(v, Exc):
                    outs.append((s2, ('raise', v)))
                    continue
                if isinstance(v, (Ref,)) and v == vs[0]:
                    outs.append((s2, None))
                    continue
                if v == vs[0] and v in s2.lists:
                    outs.append((s2, None))
                    continue
                for s3, r in self.assign(n.target, v, s2, n):
                    outs.append((s3, ('raise', r) if isinstance(r, Exc) else None))
        return outs

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            fid = st.stack[-1][1]
            env = st.frames[fid]
            fi = st.stack[-1][0]
            names = self._scopes(fi.node)
            if t.id in names['global']:
                base = ModV(fi.module.name)
                st.attrs[(base, t.id)] = v
                self.effect(st, 'setattr', node, target=base, name=t.id, args=(self.freeze(st, v),), data=(v, None))
                return [(st, NONE)]
            if t.id in names['nonlocal']:
                f = env.get('$closure')
                while f is not None:
                    e = self.frame(st, f)
                    if t.id in e:
                        e[t.id] = v
                        return [(st, NONE)]
                    f = e.get('$closure')
            env[t.id] = v
            return [(st, NONE)]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            it = self.items(st, v)
            n = len(t.elts)
            vals = None
            if it is not None:
                if star and len(it) >= n - 1:
                    k = star[0]
                    r = n - k - 1
                    vals = it[:k] + [self.new_list(st, [('item', x) for x in it[k: len(it) - r]])] + it[len(it) - r:]
                elif not star and len(it) == n:
                    vals = it
                elif not star:
                    return [(st, Exc('ValueError', self.loc(st, node)))]
            if vals is None:
                b = self.as_iter(st, v)
                if star:
                    k = star[0]
                    vals = [T('sub', b, K(i)) for i in range(k)] + [T('slice_of', b, K(k), K(k - n + 1) if k - n + 1 else NONE, K(1))] + \
                           [T('sub', b, K(i)) for i in range(k - n + 1, 0)]
                else:
                    segs = self.segs(st, v)
                    if len(segs) == 1 and segs[0][0] == 'splat':
                        vals = [T('sub', b, K(i)) for i in range(n)]
                        st.ranges.setdefault(T('len', b), (n, n))
                    else:
                        fz = self.freeze(st, v)
                        vals = [T('sub', fz, K(i)) for i in range(n)]
            outs = [(st, NONE)]
            for x, y in zip(t.elts, vals):
                nxt = []
                for s, r in outs:
                    if isinstance(r, Exc):
                        nxt.append((s, r))
                    else:
                        nxt += self.assign(x.value if isinstance(x, ast.Starred) else x, y, s, node)
                outs = nxt
            return outs
        if isinstance(t, ast.Attribute):
            outs = []
            for s, b in self.eval(t.value, st):
                outs += [(s, b)] if isinstance(b, Exc) else self.set_attr(s, b, t.attr, v, node)
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for s, vs in self.evs([t.value, t.slice], st):
                outs += [(s, vs)] if isinstance(vs, Exc) else self.set_item(s, vs[0], vs[1], v, node)
            return outs
        return [(st, NONE)]

    def _scopes(self, node):
        cache = self.__dict__.setdefault('_scopecache', {})
        r = cache.get(id(node))
        if r is None:
            r = {'global': set(), 'nonlocal': set()}
            for x in ast.walk(node):
                if isinstance(x, ast.Global):
                    r['global'] |= set(x.names)
                elif isinstance(x, ast.Nonlocal):
                    r['nonlocal'] |= set(x.names)
            cache[id(node)] = r
        return r

    def s_Delete(self, n, st):
        live, done = [st], []
        for t in n.targets:
            nxt = []
            for s in live:
                if isinstance(t, ast.Subscript):
                    for s2, vs in self.evs([t.value, t.slice], s):
                        if isinstance(vs, Exc):
                            done.append((s2, ('raise', vs)))
                            continue
                        self.del_item(s2, vs[0], vs[1], n)
                        nxt.append(s2)
                elif isinstance(t, ast.Name):
                    v = s.frames[s.stack[-1][1]].pop(t.id, None)
                    if v is not None:
                        self.effect(s, 'delname', n, target=v, name=t.id)
                        if self.refcount and isinstance(v, Ref):
                            nxt += self.destroy(s, [v], (), n)
                            continue
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s):
                        s2.attrs.pop((b, t.attr), None)
                        self.effect(s2, 'delattr', n, target=b, name=t.attr)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            live = nxt
        return done + [(s, None) for s in live]

    def s_If(self, n, st):
        outs = []
        for s, v in self.eval(n.test, st):
            if isinstance(v, Exc):
                outs.append((s, ('raise', v)))
                continue
            for s2, b in self.truth(v, s):
                if isinstance(b, Exc):
                    outs.append((s2, ('raise', b)))
                else:
                    outs += self.block(n.body if b else n.orelse, s2)
        return outs

    # ------------------------------------------------------------------ with
    def s_With(self, n, st, i=0):
        if i == len(n.items):
            return self.block(n.body, st)
        item = n.items[i]
        outs = []
        # a recorded meta context is not entered but noted
        for s, v in self.eval_ctx(item.context_expr, st):
            if isinstance(v, Exc):
                outs.append((s, ('raise', v)))
                continue
            ci = self.class_of(v)
            rec = isinstance(v, T) and v.op == 'context'
            if rec:
                self.effect(s, 'enter', n, target=v, name=v.args[0], args=v.args[1], kw=v.args[2])
                ent = [(s, v)]
            elif ci is not None and self.prog.find_method(ci, '__enter__'):
                ent = self.call_fn(s, FnV(self.prog.find_method(ci, '__enter__'), v), [], {}, n)
            else:
                self.effect(s, 'enter', n, target=v, name='with')
                ent = [(s, T('entered', v))]
            for s2, w in ent:
                if isinstance(w, Exc):
                    outs.append((s2, ('raise', w)))
                    continue
                cur = [(s2, NONE)]
                if item.optional_vars is not None:
                    cur = self.assign(item.optional_vars, w, s2, n)
                for s3, _ in cur:
                    for s4, sig in self.s_With(n, s3, i + 1):
                        if rec or not (ci is not None and self.prog.find_method(ci, '__exit__')):
                            self.effect(s4, 'exit', n, target=v, name=v.args[0] if rec else 'with')
                            outs.append((s4, sig))
                            continue
                        m = self.prog.find_method(ci, '__exit__')
                        if sig is not None and sig[0] == 'raise':
                            a = [T('exctype', sig[1].name), T('excval', sig[1].name), T('tb')]
                        else:
                            a = [NONE, NONE, NONE]
                        for s5, r in self.call_fn(s4, FnV(m, v), a, {}, n):
                            if isinstance(r, Exc):
                                outs.append((s5, ('raise', r)))
                            elif sig is not None and sig[0] == 'raise':
                                for s6, b in self.truth(r, s5):
                                    outs.append((s6, None if b else sig))
                            else:
                                outs.append((s5, sig))
        return outs

    def eval_ctx(self, e, st):
        if isinstance(e, ast.Call):
            outs = []
            for s, f in self.eval(e.func, st):
                if isinstance(f, ClsV) and f.ci.name in self.contexts:
                    for s2, vs in self.evs([a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords], s):
                        if isinstance(vs, Exc):
                            outs.append((s2, vs))
                            continue
                        na = len(e.args)
                        kw = {k.arg: v for k, v in zip(e.keywords, vs[na:])}
                        init = self.prog.find_method(f.ci, '__init__')
                        args = vs[:na]
                        if init is not None:
                            env, err = self.bind(s2, FnV(init, NONE), args, kw, e)
                            if err is None:
                                names = [x.arg for x in init.node.args.posonlyargs + init.node.args.args][1:]
                                args = [env[0][1][x] for x in names]
                        outs.append((s2, T('context', f.ci.name, tuple(self.freeze(s2, a) for a in args), (), next(self.uid))))
                else:
                    outs += self.eval(e, s) if isinstance(f, Exc) else self._finish_call(e, s, f)
            return outs
        return self.eval(e, st)

    def _finish_call(self, e, st, f):
        fake = ast.copy_location(ast.Call(func=_Lit(f), args=e.args, keywords=e.keywords), e)
        return self.e_Call(fake, st)

    def e__Lit(self, e, st):
        return [(st, e.value)]

    # ------------------------------------------------------------------ try
    def s_Try(self, n, st):
        handlers = []
        for h in n.handlers:
            types = []
            if h.type is None:
                types = ['BaseException']
            else:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    (_, v), = self.eval(x, st.fork())[:1]
                    types.append(v.ci if isinstance(v, ClsV) else v.name.replace('builtins.', '') if isinstance(v, ExtV) else 'Exception')
            handlers.append((h, types))
        st.tries = st.tries + (tuple(t for _, ts in handlers for t in ts) or (('Exception',) if self.finally_raises and n.finalbody else ()),)
        res = []
        for s, sig in self.block(n.body, st):
            s.tries = s.tries[:-1]
            if sig is not None and sig[0] == 'raise':
                ex = sig[1]
                for h, types in handlers:
                    if any(self.exc_match(ex, t) for t in types):
                        if h.name:
                            ev = T('excval', ex.name)
                            s.frames[s.stack[-1][1]][h.name] = ev
                            s.notes[('excval', ev)] = ex.cls
                            s.notes[('excargs', ev)] = tuple(ex.value) if isinstance(ex.value, (tuple, list)) else None
                        old = s.notes.get('exc')
                        s.notes['exc'] = ex
                        for s2, sg in self.block(h.body, s):
                            s2.notes['exc'] = old
                            res.append((s2, sg))
                        break
                else:
                    res.append((s, sig))
            elif sig is None and n.orelse:
                res += self.block(n.orelse, s)
            else:
                res.append((s, sig))
        if not n.finalbody:
            return res
        outs = []
        for s, sig in res:
            for s2, sg in self.block(n.finalbody, s):
                outs.append((s2, sg if sg is not None else sig))
        return outs

    def exc_match(self, ex, t):
        c = ex.cls
        if c == t:
            return True
        if isinstance(c, ClassInfo):
            if isinstance(t, ClassInfo):
                return self.prog.is_sub(c, t)
            return any(isinstance(x, str) and self._bi_sub(x.replace('builtins.', ''), t) for x in self.prog.mro(c))
        if isinstance(t, ClassInfo):
            return False
        return self._bi_sub(c, t)

    def _bi_sub(self, a, b):
        x, y = getattr(builtins, a, None), getattr(builtins, b, None)
        if isinstance(x, type) and isinstance(y, type):
            return issubclass(x, y)
        if x is None and b in ('Exception', 'BaseException'):
            return True
        return a == b

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st):
        outs = []
        for s, it in self.eval(n.iter, st):
            if isinstance(it, Exc):
                outs.append((s, ('raise', it)))
                continue
            view = it
            f = n.iter.func if isinstance(n.iter, ast.Call) and not n.iter.args else None
            if isinstance(f, ast.Attribute) and f.attr in ('items', 'keys', 'values') and isinstance(f.value, (ast.Name, ast.Attribute)):
                r = self.eval(f.value, s.fork())
                view = r[0][1] if len(r) == 1 else None
            outs += self.for_over(n, s, it, view)
        return outs

    def _size(self, st, v):
        """Number of elements of a dictionary or set object, if known."""
        if not isinstance(v, Ref) or self.kind(v) not in ('dict', 'set'):
            return None
        it = st.dkeys.get(v, self.g_dkeys.get(v)) if self.kind(v) == 'dict' else self.items(st, v)
        return None if it is None else len(it)

    def for_over(self, n, st, it, view=None):
        live, outs = [st], []
        broke = []
        size = self._size(st, view)
        # a list that the body changes while it is iterated: only its present contents are considered
        parts = self.iter_parts(st, it)
        if len(parts) > 1 and len(parts) > self.unroll:
            parts = [('abs', T('elem', self.freeze(st, it)), ('splat', self.freeze(st, it)))]
        for kind, elem, seg in parts:
            nxt = []
            for s in live:
                if kind == 'item':
                    for s2, r in self.assign(n.target, elem, s, n):
                        if isinstance(r, Exc):
                            outs.append((s2, ('raise', r)))
                            continue
                        for s3, sig in self.block(n.body, s2):
                            if sig is None or sig[0] == 'cont':
                                if size is not None and self._size(s3, view) not in (None, size):
                                    outs.append((s3, ('raise', Exc('RuntimeError', self.loc(s3, n)))))
                                else:
                                    nxt.append(s3)
                            elif sig[0] == 'break':
                                broke.append(s3)
                            else:
                                outs.append((s3, sig))
                else:
                    a, b, o = self.abs_loop(n, s, seg, n.body, lambda sx, ex: self.assign(n.target, ex, sx, n))
                    nxt += a
                    broke += b
                    outs += o
            live = nxt
        for s in live:
            outs += self.block(n.orelse, s) if n.orelse else [(s, None)]
        outs += [(s, None) for s in broke]
        return outs

    def snapshot(self, st):
        return {'frames': {f: dict(e) for f, e in st.frames.items()}, 'attrs': dict(st.attrs), 'lists': dict(st.lists),
                'ditems': dict(st.ditems), 'dkeys': dict(st.dkeys)}

    def changed(self, before, st):
        """Locations that existed before and differ now."""
        ch = set()
        for f, e in before['frames'].items():
            e2 = st.frames.get(f, {})
            for k, v in e2.items():
                if k in e and e[k] != v:
                    ch.add(('frames', f, k))
                elif k not in e and not k.startswith('$'):
                    ch.add(('newvar', f, k))
        for d in ('attrs', 'ditems'):
            for k, v in getattr(st, d).items():
                if k in before[d]:
                    if before[d][k] != v:
                        ch.add((d, k))
                else:
                    b = k[0]
                    if not (isinstance(b, Ref) and self._is_new(b, before)):
                        ch.add((d, k))
        for d in ('lists', 'dkeys'):
            for k, v in getattr(st, d).items():
                if k in before[d]:
                    if before[d][k] != v:
                        ch.add((d, k))
                elif not (isinstance(k, Ref) and self._is_new(k, before)):
                    ch.add((d, k))
        return ch

    def _is_new(self, ref, before):
        return ref.oid > before['mark']

    def abs_loop(self, n, st, seg, body, bind):
        """One arbitrary iteration. -> (after states, states after break, [(state, sig)] leaving the function)"""
        before = self.snapshot(st)
        before['mark'] = next(self.uid)
        # pass 1: what does the body change?
        ch = set()
        eff_mark = len(st.eff)
        for sx, ex in self._pre_elem(st.fork(), seg):
            for s2, r in bind(sx, ex):
                if isinstance(r, Exc):
                    continue
                for s3, sig in self.block(body, s2):
                    ch |= self.changed(before, s3)
        targets = set()
        if isinstance(n, (ast.For,)):
            targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        cur_fid = st.stack[-1][1]
        hav = st.fork()
        hv = {}
        for c in sorted(ch, key=repr):
            if c[0] == 'frames' and not (c[1] == cur_fid and c[2] in targets):
                hv[c] = T('acc', next(self.uid), c[2])
                hav.frames[c[1]][c[2]] = hv[c]
            elif c[0] == 'attrs':
                hv[c] = T('acc', next(self.uid), f'{c[1][0]!r}.{c[1][1]}')
                hav.attrs[c[1]] = hv[c]
            elif c[0] == 'lists':
                hv[c] = T('acc', next(self.uid), repr(c[1]))
                hav.lists[c[1]] = (('splat', hv[c]),)
            elif c[0] == 'dkeys':
                hav.dkeys.pop(c[1], None)
            elif c[0] == 'ditems':
                hv[c] = T('acc', next(self.uid), repr(c[1]))
                hav.ditems[c[1]] = hv[c]
        # pass 2
        paths, rets, brk, ends = [], [], [], []
        facts0 = dict(hav.facts)
        for sx, ex in self._pre_elem(hav.fork(), seg):
            for s2, r in bind(sx, ex):
                if isinstance(r, Exc):
                    rets.append((s2, ('raise', r)))
                    continue
                for s3, sig in self.block(body, s2):
                    new = frozenset((f, b) for f, b in s3.facts.items() if facts0.get(f) is None)
                    paths.append(LoopPath(new, s3.eff[eff_mark:], sig))
                    if sig is None or sig[0] == 'cont':
                        ends.append((s3, new))
                    elif sig[0] == 'break':
                        brk.append((s3, new))
                    else:
                        rets.append((s3, sig))
        loop_eff = Effect('loop', target=seg[1], data=paths, args=(self.elem(seg[1]) if seg[0] == 'splat' else T('elem', T('each', seg[1], ())),),
                          loc=self.loc(st, n), fn=self.fname(st))
        it = seg[1]

        def with_loop(s, tail):
            s.eff = s.eff[:eff_mark] + [loop_eff] + tail
            return s
        out_ret = []
        for s, sig in rets:
            new = frozenset((f, b) for f, b in s.facts.items() if facts0.get(f) is None)
            tail = s.eff[eff_mark:]
            s.facts[T('any', it, frozenset([new]))] = True
            with_loop(s, tail)
            out_ret.append((s, sig))
        out_brk = []
        for s, new in brk:
            tail = s.eff[eff_mark:]
            s.facts[T('any', it, frozenset([new]))] = True
            with_loop(s, tail)
            out_brk.append(s)
        # after the loop
        after = st.fork()
        with_loop(after, [])
        exits = [frozenset(p.facts) for p in paths if p.sig is not None and p.sig[0] != 'cont']
        for new in exits:
            after.facts[T('any', it, frozenset([new]))] = False
        final = [after]
        # scalars written with a value that does not depend on earlier iterations: split on the last writer
        scal = [c for c in hv if c[0] in ('frames', 'attrs', 'ditems')] + [c for c in ch if c[0] == 'newvar']
        hvals = set(hv.values())
        writers = {}
        simple = True
        for s, new in ends:
            w = []
            for c in scal:
                v = self._get(s, c)
                if v is None or c in hv and v == hv[c]:
                    continue
                w.append((c, v))
                if any(x in hvals for x in walk(v)):
                    simple = False
            if w:
                writers.setdefault(tuple(sorted(w, key=repr)), []).append((s, new))
        consts = [c for c in scal if c in hv]
        if simple and len(writers) <= 3 and all(all(isinstance(v, (K,)) for c, v in w if c in hv) for w in writers):
            # flags: the loop leaves them as they were, or sets them
            for w, ss in writers.items():
                if not any(c in hv for c, _ in w):
                    continue
                f = T('any', it, frozenset(new for _, new in ss))
                s = after.fork()
                s.facts[f] = True
                for c, v in w:
                    self._put(s, c, v)
                final.append(s)
                after.facts[f] = False
            # lists below
        else:
            for c in consts:
                vals = []
                for s, new in ends:
                    v = self._get(s, c)
                    if v is not None and v != hv[c]:
                        vals.append((new, v))
                old = self._get(after, c)
                nv = T('loopval', it, old if isinstance(old, Val) else NONE, tuple(sorted(vals, key=repr)), hv[c])
                for s in final:
                    self._put(s, c, nv)
        for c in ch:
            if c[0] == 'newvar' and not (c[1] == cur_fid and c[2] in targets):
                for s, new in ends[:1]:
                    v = self._get(s, c)
                    for f in final:
                        if v is not None and f.frames.get(c[1], {}).get(c[2]) is None and c[1] in f.frames:
                            f.frames[c[1]][c[2]] = T('lastval', it, v)
            if c[0] == 'lists':
                old = self.segs(st, c[1])
                br, ok = [], True
                for s, new in ends:
                    sg = s.lists.get(c[1])
                    if sg and sg[0] == ('splat', hv[c]) and not any(h in walk(x[1]) for x in sg[1:] if x[0] == 'item' for h in [hv[c]]):
                        br.append((new, sg[1:]))
                    else:
                        ok = False
                for s in final:
                    if ok:
                        keep = tuple((cc, g) for cc, g in br if g)
                        always = bool(br) and all(g for _, g in br)
                        s.lists[c[1]] = old + ((('each', it, keep, always),) if keep else ())
                    else:
                        s.lists[c[1]] = (('splat', T('acc', next(self.uid), repr(c[1]))),)
            if c[0] == 'dkeys':
                for s in final:
                    s.dkeys.pop(c[1], None)
                    s.notes[('dictloop', c[1])] = True
            if c[0] == 'ditems' and c not in hv:
                for s in final:
                    s.ditems.pop(c[1], None)
        # heap of objects created by the body stays readable
        for s, new in ends[:1] + [(x, None) for x in ()]:
            for d in ('attrs', 'lists', 'ditems', 'dkeys'):
                for k, v in getattr(s, d).items():
                    b = k[0] if isinstance(k, tuple) else k
                    if isinstance(b, Ref) and self._is_new(b, before):
                        for f in final:
                            getattr(f, d).setdefault(k, v)
            for fid, env in s.frames.items():
                for f in final:
                    f.frames.setdefault(fid, env)
        return final, out_brk, out_ret

    def _get(self, s, c):
        if c[0] in ('frames', 'newvar'):
            return s.frames.get(c[1], {}).get(c[2])
        return getattr(s, c[0]).get(c[1])

    def _put(self, s, c, v):
        if c[0] in ('frames', 'newvar'):
            if c[1] in s.frames:
                s.frames[c[1]][c[2]] = v
        else:
            getattr(s, c[0])[c[1]] = v

    def s_While(self, n, st):
        outs, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            before = s.fork()
            res = []
            for s1, v in self.eval(n.test, s):
                if isinstance(v, Exc):
                    outs.append((s1, ('raise', v)))
                    continue
                res += self.truth(v, s1)
            undecided = len(res) > 1
            if k < self.unroll and (not undecided or k < 0):
                for s1, b in res:
                    if isinstance(b, Exc):
                        outs.append((s1, ('raise', b)))
                        continue
                    if not b:
                        outs += self.block(n.orelse, s1) if n.orelse else [(s1, None)]
                        continue
                    for s2, sig in self.block(n.body, s1):
                        if sig is None or sig[0] == 'cont':
                            work.append((s2, k + 1))
                        elif sig[0] == 'break':
                            outs.append((s2, None))
                        else:
                            outs.append((s2, sig))
                continue
            # not decided (or unrolled too often): one arbitrary iteration
            seg = ('splat', T('while', f'{self.fname(before)}:{n.lineno}', next(self.uid)))

            def bind(sx, ex):
                r = []
                for s1, v in self.eval(n.test, sx):
                    if isinstance(v, Exc):
                        r.append((s1, v))
                        continue
                    for s2, b in self.truth(v, s1):
                        if b is True:
                            r.append((s2, NONE))
                return r
            after, brk, rets = self.abs_loop(n, before, seg, n.body, bind)
            for a in after:
                for s1, v in self.eval(n.test, a):
                    if isinstance(v, Exc):
                        continue
                    for s2, b in self.truth(v, s1):
                        if b is not True:
                            outs += self.block(n.orelse, s2) if n.orelse else [(s2, None)]
            outs += [(s, None) for s in brk]
            outs += rets
        return outs


class _Lit(ast.expr):
    _fields = ()

    def __init__(self, value):
        super().__init__()
        self.value = value


def _as_load(t):
    return {ast.Name: lambda: ast.copy_location(ast.Name(t.id, ast.Load()), t),
            ast.Attribute: lambda: ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t),
            ast.Subscript: lambda: ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)}[type(t)]()
