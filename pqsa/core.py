"""Path-sensitive, interprocedural value-flow analysis over the syntax tree.

Abstract values are provenance terms (pqsa.values).  Branches whose condition is not decided by the facts of a path split
the path; loops over collections of unknown size are analysed once for an arbitrary element, with everything the body
modifies forgotten beforehand; calls to repository functions are inlined along the MRO; everything else is an opaque term.
Nothing of the analysed program is executed and no solver is involved.
"""
import ast
import builtins
import cmath
import itertools
import json
import math
import os
from fractions import Fraction

from .model import AnalysisError, ClassInfo, FuncInfo
from .values import (FALSE, IM, K, NONE, PI, SQRT2, TRUE, BoundExt, ClsV, Exc, ExtV, FnV, ModV, Ref, SuperV, T, Val,
                     const_of, contains, from_poly, is_num, is_tuple, numval, padd, pmul, polyval, pscale, psub, subst, to_poly, tup, walk)

INF = float('inf')


class Effect:
    """kind: call apply setattr setitem delitem mutate enter exit loop raise print uncompute return"""
    __slots__ = ('kind', 'target', 'name', 'args', 'kw', 'loc', 'fn', 'data')

    def __init__(self, kind, target=None, name=None, args=(), kw=(), loc='', fn='', data=None):
        self.kind, self.target, self.name, self.args, self.kw = kind, target, name, args, kw
        self.loc, self.fn, self.data = loc, fn, data

    def __repr__(self):
        if self.kind == 'loop':
            return f'loop({self.target}: {self.data})'
        return f'{self.kind}[{self.target!r}.{self.name}({", ".join(map(repr, self.args))}{self.kw or ""})@{self.loc}]'


class LoopPath:
    __slots__ = ('facts', 'effects', 'sig')

    def __init__(self, facts, effects, sig):
        self.facts, self.effects, self.sig = facts, effects, sig

    def __repr__(self):
        return f'<{self.facts} -> {self.effects} {self.sig or ""}>'


class State:
    __slots__ = ('frames', 'attrs', 'lists', 'ditems', 'dkeys', 'facts', 'ranges', 'eff', 'stack', 'tries', 'notes')

    def __init__(self):
        self.frames, self.attrs, self.lists, self.ditems, self.dkeys = {}, {}, {}, DItems(), {}
        self.facts, self.ranges = {}, {}
        self.eff = []
        self.stack = ()
        self.tries = ()
        self.notes = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.attrs, s.lists, s.ditems, s.dkeys = dict(self.attrs), dict(self.lists), DItems(self.ditems), dict(self.dkeys)
        s.facts, s.ranges = dict(self.facts), dict(self.ranges)
        s.eff = list(self.eff)
        s.stack, s.tries, s.notes = self.stack, self.tries, dict(self.notes)
        return s


def cached_is_gen(fi):
    g = getattr(fi, 'gen_', None)
    if g is None:
        g = fi.gen_ = _is_gen(fi.node)
    return g


def nests(node):
    """Code inside a function that keeps its frame alive: functions defined in it."""
    g = getattr(node, 'nests_', None)
    if g is None:
        g = node.nests_ = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in ast.walk(node) if n is not node)
    return g


class DItems(dict):
    """(dictionary, key) -> value, with an index of the keys of every dictionary."""
    __slots__ = ('by',)

    def __init__(self, other=None):
        super().__init__(other or {})
        if isinstance(other, DItems):
            self.by = dict(other.by)
        else:
            self.by = {}
            for d, k in self:
                self.by[d] = self.by.get(d, ()) + (k,)

    def __setitem__(self, dk, v):
        if dk not in self:
            self.by[dk[0]] = self.by.get(dk[0], ()) + (dk[1],)
        super().__setitem__(dk, v)

    def setdefault(self, dk, v=None):
        if dk not in self:
            self[dk] = v
        return self[dk]

    def __delitem__(self, dk):
        super().__delitem__(dk)
        rest = tuple(k for k in self.by[dk[0]] if k != dk[1])
        if rest:
            self.by[dk[0]] = rest
        else:
            del self.by[dk[0]]

    def pop(self, dk, *default):
        if dk in self:
            v = self[dk]
            del self[dk]
            return v
        return default[0] if default else self[dk]

    def update(self, other):
        for dk, v in other.items():
            self[dk] = v

    def keys_of(self, d):
        return self.by.get(d, ())


NUMFUN = {'math.cos': 'cos', 'math.sin': 'sin', 'math.exp': 'exp', 'math.sqrt': 'sqrt', 'cmath.exp': 'exp', 'cmath.sqrt': 'sqrt',
          'cmath.cos': 'cos', 'cmath.sin': 'sin', 'numpy.cos': 'cos', 'numpy.sin': 'sin', 'numpy.exp': 'exp',
          'numpy.sqrt': 'sqrt', 'math.tan': 'tan'}
def conj(v):
    """Complex conjugate of a number built from real symbols."""
    p = {}
    for m, c in to_poly(v).items():
        mm, s = [], 1
        for x, e in m:
            if x == IM:
                s = -s if e % 2 else s
            elif isinstance(x, T) and x.op == 'exp':
                x = T('exp', conj(x.args[0]))
            mm.append((x, e))
        p = padd(p, {tuple(sorted(mm, key=lambda t: repr(t[0]))): c * s})
    return from_poly(p)


def reim(v):
    """Real and imaginary part (as polynomials) of a number made of constants only, else (None, None)."""
    re, im = {}, {}
    for m, c in to_poly(v).items():
        if any(x != IM and numval(x) is None for x, _ in m):
            return None, None
        if any(x == IM for x, _ in m):
            im = padd(im, {tuple((x, e) for x, e in m if x != IM): c})
        else:
            re = padd(re, {m: c})
    return re, im


REAL = ('sym', 'mod', 'round', 'float', 'cos', 'sin', 'sqrt', 'pi', 'sqrt2')


def conjugable(v):
    """A number made of constants, exponentials and real functions of the client's (real) symbols."""
    for m in to_poly(v):
        for x, _ in m:
            if x == IM or numval(x) is not None or isinstance(x, T) and x.op in REAL:
                continue
            if not (isinstance(x, T) and x.op == 'exp' and conjugable(x.args[0])):
                return False
    return True


def cval(v):
    """Number a constant term stands for (complex if it has an imaginary part), else None."""
    if isinstance(v, K):
        return v.v if isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool) else None
    if not isinstance(v, T):
        return None
    if v == IM:
        return 1j
    if v.op == 'poly':
        r = 0.0
        for m, c in v.args[0]:
            t = float(c)
            for x, e in m:
                y = cval(x)
                if y is None:
                    return None
                t *= y ** e
            r += t
        return r
    if v.op == 'exp':
        x = cval(v.args[0])
        return None if x is None else cmath.exp(x)
    return numval(v)


class NoVal(Exception):
    """A value is not completely known."""


PURE_EXT = ('math.', 'cmath.', 'numpy.', 'copy.', 'itertools.', 'functools.', 'collections.', 'scipy.', 'networkx.', 're.',
            'random.', 'json.', 'datetime.', 'operator.', 'inspect.', 'string.', 'fractions.')
MUTATORS = {'append', 'add', 'extend', 'insert', 'remove', 'discard', 'pop', 'clear', 'update', 'sort', 'reverse', 'popitem',
            'setdefault', 'difference_update', 'popleft', 'appendleft'}
EXC_BASE = {'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'}


def _bounds(st, base):
    return st.ranges.get(base, (0, INF) if is_len(base) else (-INF, INF))


SPLITS = os.environ.get('PQSA_SPLITS')


def is_len(t):
    return isinstance(t, T) and t.op in ('len', 'idx')


def ground(x):
    """Equal terms of this form are equal values, different ones different values."""
    return isinstance(x, (K, Ref)) or is_tuple(x) and all(isinstance(y, K) or ground(y) and not isinstance(y, Ref) for y in x.args)


class InterpBase:
    def __init__(self, prog, **opt):
        self.prog = prog
        self.uid = itertools.count(1)
        self.cls_of = {}  # oid -> ClassInfo
        self.kind_of = {}  # oid -> 'list' 'dict' 'set' (for Refs of builtin containers)
        self.types = {}  # term -> ClassInfo (given by the rule)
        self.globals = {}
        self.g_attrs, self.g_lists, self.g_ditems, self.g_dkeys = {}, {}, DItems(), {}
        self.g_frames = {}  # closures created by module level code
        self.hooks = dict(opt.get('hooks', {}))
        self.opaque = set(opt.get('opaque', ()))
        self.max_depth = opt.get('max_depth', 14)
        self.recursion = opt.get('recursion', 3)
        self.strict_attrs = opt.get('strict_attrs', False)
        self.unroll = opt.get('unroll', 40)
        self.budget = opt.get('budget', 600000)
        self.max_paths = opt.get('max_paths', 6000)
        self.distinct = set(opt.get('distinct', ()))
        self.record_sets = opt.get('record_sets', True)
        self.contexts = set(opt.get('contexts', ('Control', 'Dagger', 'Loop', 'Compute', 'CustomUncompute')))
        self.finally_raises = opt.get('finally_raises', False)
        self.truth_hook = opt.get('truth_hook')
        self.inline_or = opt.get('inline_or', False)
        self.floats = opt.get('floats', False)
        self.refcount = opt.get('refcount', False)
        self.weak = set()
        self.steps = 0
        self.seen_fns = set()
        self.calls = 0

    # ------------------------------------------------------------------ helpers
    def fresh(self, tag='v'):
        return T('fresh', f'{tag}{next(self.uid)}')

    def new(self, tag, kind=None, ci=None):
        r = Ref(next(self.uid), tag)
        if kind:
            self.kind_of[r.oid] = kind
        if ci is not None:
            self.cls_of[r.oid] = ci
        return r

    def new_list(self, st, segs=(), tag='list'):
        r = self.new(tag, kind=tag)
        st.lists[r] = tuple(segs)
        return r

    def new_dict(self, st, items=()):
        r = self.new('dict', kind='dict')
        ks = []
        for k, v in items:
            if k not in ks:
                ks.append(k)
            st.ditems[(r, k)] = v
        st.dkeys[r] = tuple(ks)
        return r

    def new_obj(self, ci):
        return self.new(ci.name, ci=ci)

    def class_of(self, v):
        if isinstance(v, Ref):
            return self.cls_of.get(v.oid)
        if isinstance(v, T):
            c = self.types.get(v)
            if c is not None:
                return c
            if v.op in ('deepcopy', 'copy'):
                return self.class_of(v.args[0])
        return None

    def kind(self, v):
        if isinstance(v, Ref):
            k = self.kind_of.get(v.oid)
            if k:
                return k
            ci = self.cls_of.get(v.oid)
            if ci is not None and self.prog.is_sub(ci, 'builtins.list'):
                return 'list'
        if is_tuple(v):
            return 'tuple'
        return None

    def getattr_heap(self, st, base, name):
        v = st.attrs.get((base, name))
        if v is None:
            v = self.g_attrs.get((base, name))
        if v is None and isinstance(base, T) and base.op in ('deepcopy', 'copy'):
            v = self.getattr_heap(st, base.args[0], name)
        return v

    def loc(self, st, node):
        fi = st.stack[-1][0] if st.stack else None
        return f'{fi.module.rel}:{getattr(node, "lineno", "?")}' if fi else f'?:{getattr(node, "lineno", "?")}'

    def fname(self, st):
        return st.stack[-1][0].full if st.stack else ''

    def effect(self, st, kind, node=None, **kw):
        e = Effect(kind, loc=self.loc(st, node) if node is not None else '', fn=self.fname(st), **kw)
        st.eff.append(e)
        return e

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError('analysis budget exceeded')

    # ------------------------------------------------------------------ sequences
    def segs(self, st, v):
        if is_tuple(v):
            return tuple(('item', x) for x in v.args)
        s = st.lists.get(v)
        if s is None:
            s = self.g_lists.get(v)
        if s is not None:
            return s
        k = st.dkeys.get(v, self.g_dkeys.get(v))
        if k is not None:
            return tuple(('item', x) for x in k)
        if isinstance(v, K) and isinstance(v.v, (str, tuple, list)):
            return tuple(('item', K(x)) for x in v.v)
        if isinstance(v, T) and v.op == 'range':
            a, b, s = (const_of(x) for x in v.args)
            if None not in (a, b, s):
                r = range(int(a), int(b), int(s))
                if len(r) <= self.unroll:
                    return tuple(('item', K(i)) for i in r)
        if isinstance(v, T) and v.op in ('mul', 'seqmul'):
            n = const_of(v.args[1])
            if n is not None and 0 <= n <= self.unroll:
                return self.segs(st, v.args[0]) * int(n)
        return (('splat', v),)

    def items(self, st, v):
        """The elements when their number is known, else None."""
        s = self.segs(st, v)
        if all(x[0] == 'item' for x in s):
            return [x[1] for x in s]
        return None

    def freeze(self, st, v, depth=0):
        """Replace container references by a snapshot of their contents (for effects and comparisons)."""
        if depth > 6:
            return v
        if isinstance(v, Ref) and self.kind(v) in ('list', 'set') or v in st.lists:
            s = self.segs(st, v)
            if any(x[0] == 'splat' and x[1] == v for x in s) and len(s) == 1:
                return v
            return T('list' if self.kind(v) != 'set' else 'setv', *[self._fseg(st, x, depth) for x in s])
        if is_tuple(v):
            return tup(*[self.freeze(st, x, depth + 1) for x in v.args])
        if isinstance(v, Ref) and self.kind(v) == 'dict':
            ks = st.dkeys.get(v, self.g_dkeys.get(v))
            if ks is not None:
                return T('dict', *[tup(k, self.freeze(st, st.ditems.get((v, k), self.g_ditems.get((v, k), k)), depth + 1))
                                   for k in ks])
        return v

    def _fseg(self, st, x, depth):
        if x[0] == 'item':
            return self.freeze(st, x[1], depth + 1)
        if x[0] == 'splat':
            return T('splat', x[1])
        return T('each', x[1], tuple((c, tuple(self._fseg(st, y, depth) for y in s)) for c, s in x[2]))

    def length(self, st, v):
        if isinstance(v, T) and v.op in ('zip',):
            return self.length(st, v.args[0])
        if isinstance(v, T) and v.op in ('enumerate', 'reversed', 'sorted', 'list', 'tuplev', 'keys', 'items', 'values',
                                         'deepcopy', 'copy', 'map'):
            return self.length(st, v.args[-1] if v.op == 'map' else v.args[0])
        if isinstance(v, T) and v.op == 'range' and const_of(v.args[2]) == 1 and const_of(v.args[0]) == 0:
            return v.args[1]
        p = {}
        for s in self.segs(st, v):
            if s[0] == 'item':
                p = padd(p, {(): Fraction(1)})
            elif s[0] == 'splat':
                if s[1] == v or not (isinstance(s[1], T) and s[1].op in ('zip', 'enumerate', 'reversed', 'sorted', 'range',
                                                                        'keys', 'items', 'values', 'deepcopy', 'copy')):
                    p = padd(p, to_poly(T('len', s[1])))
                else:
                    p = padd(p, to_poly(self.length(st, s[1])))
            else:
                p = padd(p, to_poly(self._eachlen(st, s)))
        return from_poly(p)

    def _eachlen(self, st, s):
        # one element for every element of the collection?
        if len(s[2]) >= 1 and all(len(segs) == 1 and segs[0][0] == 'item' for _, segs in s[2]) and s[3]:
            return self.length(st, s[1])
        return T('len', T('each', s[1], tuple((c, tuple(self._fseg(st, y, 3) for y in g)) for c, g in s[2])))

    # ------------------------------------------------------------------ entry points
    def run(self, fi, args, st=None, selfv=None, kw=None):
        """Analyse a function with abstract arguments -> [(state, ('ret', v) | ('raise', Exc))]"""
        st = st or State()
        out = []
        for s, v in self.call_fn(st, FnV(fi, selfv), list(args), dict(kw or {}), fi.node, force=True):
            out.append((s, ('raise', v) if isinstance(v, Exc) else ('ret', v)))
        return out

    def instantiate(self, st, ci, args=(), kw=None):
        return self.call_cls(st, ci, list(args), dict(kw or {}), ci.node)

    # ------------------------------------------------------------------ calls
    def call_fn(self, st, fv, args, kw, node, force=False):
        fi = fv.fi
        if fi.decorators and not force and any(x.rpartition('.')[2] in ('lru_cache', 'cache') for x in fi.decorators):
            return self.remembered(st, fv, args, kw, node)
        self.calls += 1
        for key in (fi.full, fi.qual, fi.name):
            h = self.hooks.get(key)
            if h is not None:
                r = h(self, st, fv, args, kw, node)
                if r is not None:
                    return r
        if not force and (fi.qual in self.opaque or fi.full in self.opaque or fi.name in self.opaque
                          or len(st.stack) >= self.max_depth
                          or sum(1 for f, _ in st.stack if f is fi) >= self.recursion):
            return self.opaque_call(st, fv if fv.selfv is None else fv.selfv, fi.name, args, kw, node, fn=fi)
        env, err = self.bind(st, fv, args, kw, node)
        if err is not None:
            return [(st, err)]
        outs = []
        base = []
        for s, e in env:
            base.append((s, e))
        for s, e in base:
            if isinstance(e, Exc):
                outs.append((s, e))
                continue
            fid = next(self.uid)
            self.seen_fns.add(fi.full)
            s.frames[fid] = e
            e['$closure'] = fv.fid
            e['$fi'] = fi
            s.stack = s.stack + ((fi, fid),)
            if isinstance(fi.node, ast.Lambda):
                for s2, v in self.eval(fi.node.body, s):
                    s2.stack = s2.stack[:-1]
                    if not nests(fi.node):
                        s2.frames.pop(fid, None)
                    outs.append((s2, v))
                continue
            gen = cached_is_gen(fi)
            if gen:
                e['$yield'] = self.new_list(s)
            res = self.block(fi.node.body, s)
            for s2, sig in res:
                y = s2.frames[fid].get('$yield') if gen else None
                s2.stack = s2.stack[:-1]
                gone, after = None, [s2]
                if not nests(fi.node) or not self._escapes(s2, fid):
                    gone = s2.frames.pop(fid, None)
                if self.refcount and gone and (sig is None or sig[0] == 'ret'):
                    names = self._params(fi)
                    dying = [v for n, v in gone.items() if isinstance(v, Ref) and n not in names]
                    if dying:
                        after = self.destroy(s2, dying, () if sig is None else (sig[1],), node)
                if len(after) > 1:
                    outs += [(s3, y if gen else NONE if sig is None else sig[1]) for s3 in after]
                    continue
                s2 = after[0]
                if sig is None:
                    outs.append((s2, y if gen else NONE))
                elif sig[0] == 'ret':
                    outs.append((s2, y if gen else sig[1]))
                elif sig[0] == 'raise':
                    outs.append((s2, sig[1]))
                else:
                    outs.append((s2, NONE))
        if len(outs) > self.max_paths:
            raise AnalysisError(f'more than {self.max_paths} paths through {fi.full}')
        return self.merge(outs)

    def remembered(self, st, fv, args, kw, node):
        """A function whose results are kept: a call with equal arguments returns the very same object."""
        given = (fv.selfv,) + tuple(args) + tuple(x for k in sorted(kw) for x in (K(k), kw[k]))
        key = ('kept', fv.fi.full)
        work, outs = [(st, 0)], []
        while work:
            s, i = work.pop()
            kept = s.notes.get(key, ())
            if i == len(kept):
                for s2, v in self.call_fn(s, fv, args, kw, node, force=True):
                    if not isinstance(v, Exc):
                        s2.notes[key] = s2.notes.get(key, ()) + ((given, v),)
                    outs.append((s2, v))
                continue
            old, v = kept[i]
            if len(old) != len(given):
                work.append((s, i + 1))
                continue
            paths = [(s, True)]
            for a, b in zip(old, given):
                nxt = []
                for s2, e in paths:
                    if e is not True or a == b:
                        nxt.append((s2, e))
                        continue
                    if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                        nxt.append((s2, False))
                        continue
                    for s3, c in self.compare(s2, '==', a, b, node):
                        if isinstance(c, Exc):
                            nxt.append((s3, False))
                        else:
                            nxt += [(s4, t is True) for s4, t in self.truth(c, s3)]
                paths = nxt
            for s2, e in paths:
                if e:
                    outs.append((s2, v))
                else:
                    work.append((s2, i + 1))
        return outs

    def _params(self, fi):
        a = getattr(fi.node, 'args', None)
        return {x.arg for x in (a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])} if a else set()

    def _children(self, st, v, attrs):
        if isinstance(v, Ref):
            if v.oid in self.weak:
                return
            for seg in st.lists.get(v, ()):
                yield from seg[1:]
            for k in st.ditems.keys_of(v):
                yield k
                yield st.ditems[v, k]
            yield from attrs.get(v, ())
        elif isinstance(v, T):
            yield from v.args
        elif isinstance(v, (tuple, list)):
            yield from v
        elif isinstance(v, FnV):
            yield v.selfv
            yield v.defs
            yield from st.frames.get(v.fid, {}).values()
        elif isinstance(v, (BoundExt,)):
            yield v.recv
        elif isinstance(v, SuperV):
            yield v.selfv

    def _reach(self, st, roots, attrs):
        seen, todo = set(), list(roots)
        while todo:
            v = todo.pop()
            if isinstance(v, (tuple, list)):
                todo.extend(v)
                continue
            if not isinstance(v, (Ref, T, FnV, BoundExt, SuperV)) or v in seen:
                continue
            seen.add(v)
            todo.extend(self._children(st, v, attrs))
        return seen

    def destroy(self, st, dying, roots, node):
        """Objects with a finalizer that only the dying names refer to are finalized."""
        cand = []
        for v in dying:
            for x in [v] + [seg[1] for seg in st.lists.get(v, ()) if seg[0] == 'item']:
                ci = self.class_of(x) if isinstance(x, Ref) else None
                if ci is not None and self.prog.find_method(ci, '__del__') and x not in cand:
                    cand.append(x)
        if not cand:
            return [st]
        attrs = {}
        top = list(roots)
        for (b, _), v in st.attrs.items():
            if isinstance(b, Ref):
                attrs.setdefault(b, []).append(v)
            else:
                top.append(v)
        for fid, e in st.frames.items():
            top.extend(v for n, v in e.items() if n != '$fi' and isinstance(v, Val))
        live = self._reach(st, top, attrs)
        states = [st]
        for x in cand:
            if x not in live:
                fn = self.prog.find_method(self.class_of(x), '__del__')
                states = [s for s0 in states for s, _ in self.call_fn(s0, FnV(fn, x), [], {}, node)]
        return states

    def _escapes(self, st, fid):
        return any(e.get('$closure') == fid for f, e in st.frames.items() if f != fid) or st.notes.get(('closure', fid))

    def merge(self, outs):
        """Drop exact duplicates of outcomes."""
        if len(outs) < 8:
            return outs
        seen, res = set(), []
        for s, v in outs:
            try:
                key = (repr(v), tuple(map(id, s.eff)), tuple(sorted((repr(k), b) for k, b in s.facts.items())),
                       tuple(sorted(repr(x) for x in s.attrs.items())), tuple(sorted(repr(x) for x in s.lists.items())),
                       repr(sorted((f, [(n, repr(x)) for n, x in e.items() if n != '$fi']) for f, e in s.frames.items())))
            except Exception:
                res.append((s, v))
                continue
            if key in seen:
                continue
            seen.add(key)
            res.append((s, v))
        return res

    def bind(self, st, fv, args, kw, node):
        fi = fv.fi
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if fv.selfv is not None:
            args = [fv.selfv] + args
        env = {}
        kw = dict(kw)
        pos = []
        # star arguments of unknown length were passed as ('*', term)
        for x in args:
            if isinstance(x, tuple) and x[0] == '*':
                rem = len(names) - len(pos)
                for i in range(max(rem, 0)):
                    pos.append(T('sub', x[1], K(i)))
                if a.vararg:
                    env.setdefault('$rest', []).append(('splat', x[1]))
            else:
                pos.append(x)
        for n, v in zip(names, pos):
            env[n] = v
        extra = pos[len(names):]
        rest = [('item', x) for x in extra] + env.pop('$rest', [])
        if a.vararg:
            if all(x[0] == 'item' for x in rest):
                env[a.vararg.arg] = tup(*[x[1] for x in rest])
            else:
                env[a.vararg.arg] = self.new_list(st, rest)
        elif rest and any(x[0] == 'item' for x in rest):
            return None, Exc('TypeError', self.loc(st, node))
        star = kw.pop('**', None)
        kwonly = [x.arg for x in a.kwonlyargs]
        over = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg:
                over[k] = v
            else:
                return None, Exc('TypeError', self.loc(st, node))
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, [(K(k), v) for k, v in over.items()]) if star is None else star
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        outs = [(st, env)]
        for n in names + kwonly:
            if n in env:
                continue
            if star is not None:
                env[n] = T('sub', star, K(n))
                continue
            if n not in defaults:
                return None, Exc('TypeError', self.loc(st, node))
            if fv.defs is not None and n in dict(fv.defs):
                env[n] = dict(fv.defs)[n]
                continue
            d = defaults[n]
            key = ('default', id(fi.node), n)
            if key not in self.globals:
                s0 = State()
                s0.stack = ((FuncInfo(fi.module, fi.node), 0),)
                s0.frames[0] = {'$closure': None, '$fi': fi}
                r = self.eval(d, s0)
                self.globals[key] = r[0][1] if len(r) == 1 else T('default', fi.full, n)
                self._publish(r[0][0])
            env[n] = self.globals[key]
        return outs, None

    def _publish(self, s):
        self.g_attrs.update(s.attrs)
        self.g_lists.update(s.lists)
        self.g_ditems.update(s.ditems)
        self.g_dkeys.update(s.dkeys)
        self.g_frames.update((f, e) for f, e in s.frames.items() if f)

    def frame(self, st, fid):
        e = st.frames.get(fid)
        if e is None and fid in self.g_frames:
            e = st.frames[fid] = dict(self.g_frames[fid])
        return e

    def opaque_call(self, st, target, name, args, kw, node, fn=None, pure=False):
        """A call that is not analysed further: an effect and a result term; may raise inside a try block."""
        fargs = tuple(self.freeze(st, x) if not (isinstance(x, tuple)) else T('splat', x[1]) for x in args)
        fkw = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        f = BoundExt(target, name) if name else target
        val = T('call', f, fargs, fkw)
        if not pure:
            self.effect(st, 'call', node, target=target, name=name, args=fargs, kw=fkw, data=(fn, val))
            n = st.notes.get(('calls', val), 0)
            st.notes[('calls', val)] = n + 1
            if n:
                val = T('call', f, fargs, fkw + (('#', K(n)),))
                st.eff[-1].data = (fn, val)
        outs = [(st, val)]
        for h in st.tries[-1] if st.tries else ():
            if self._may_raise(h, name, target, fn):
                s2 = st.fork()
                s2.facts[T('raises', val, str(h if isinstance(h, str) else h.name))] = True
                outs.append((s2, Exc(h, self.loc(st, node))))
        return outs

    def _may_raise(self, h, name, target, fn):
        if h in ('Exception', 'BaseException') and name is None and isinstance(target, ExtV) and target.name.startswith(('numpy.', 'math.', 'cmath.', 'warnings.')):
            return False  # arithmetic on proper arguments
        if isinstance(h, str):
            return True
        # a repository exception: only from a repository function of that name which raises it
        if fn is not None:
            return self._raises(fn, h)
        for c in self.prog.all_classes():
            m = c.methods.get(name)
            if m is not None and self._raises(m, h):
                return True
        for m in self.prog.modules.values():
            f = m.funcs.get(name)
            if f is not None and self._raises(f, h):
                return True
        return False

    def _raises(self, fi, h):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if isinstance(e, ast.Name) and e.id == h.name or isinstance(e, ast.Attribute) and e.attr == h.name:
                    return True
        return False

    def call_cls(self, st, ci, args, kw, node):
        h = self.hooks.get('new:' + ci.name)
        if h is not None:
            r = h(self, st, ci, args, kw, node)
            if r is not None:
                return r
        ext = self.prog.has_ext_base(ci)
        if any(x.endswith('Enum') for x in ext):
            return [(st, T('enumof', ci.name, *args))]
        obj = self.new_obj(ci)
        new = self.prog.find_method(ci, '__new__')
        init = self.prog.find_method(ci, '__init__')
        if self.prog.is_sub(ci, 'builtins.list'):
            st.lists[obj] = self.segs(st, args[0]) if args and init is None else ()
        if new is not None and ci.name != 'object':
            pass
        self.effect(st, 'new', node, target=obj, name=ci.name, args=tuple(self.freeze(st, a) if isinstance(a, Val) else a for a in args),
                    kw=tuple(sorted(kw.items(), key=lambda t: t[0])))
        if init is None:
            if 'typing.NamedTuple' in ext or any(x.endswith('NamedTuple') for x in ext):
                fields = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign)]
                for f, a in zip(fields, args):
                    st.attrs[(obj, f)] = a
                for k, v in kw.items():
                    st.attrs[(obj, k)] = v
            elif any('dataclass' in ast.unparse(d) for d in ci.node.decorator_list):
                fields = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign)]
                for f, a in zip(fields, args):
                    st.attrs[(obj, f)] = a
                for k, v in kw.items():
                    st.attrs[(obj, k)] = v
            elif args and not ext:
                return [(st, Exc('TypeError', self.loc(st, node)))]
            return [(st, obj)]
        outs = []
        for s, v in self.call_fn(st, FnV(init, obj), args, kw, node):
            outs.append((s, v if isinstance(v, Exc) else obj))
        return outs

    def call_value(self, st, f, args, kw, node):
        if isinstance(f, FnV):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, ClsV):
            return self.call_cls(st, f.ci, args, kw, node)
        if isinstance(f, BoundExt):
            return self.call_method(st, f.recv, f.name, args, kw, node)
        if isinstance(f, ExtV):
            return self.call_ext(st, f.name, args, kw, node)
        if isinstance(f, T) and f.op == 'partial':
            return self.call_value(st, f.args[0], list(f.args[1]) + list(args), dict(dict(f.args[2]), **kw), node)
        if isinstance(f, T) and f.op == 'weakref' and not args:
            return [(st, f.args[0])]
        if isinstance(f, T) and f.op == 'ite':
            outs = []
            for s, b in self.truth(f.args[0], st):
                outs += self.call_value(s, f.args[1] if b else f.args[2], args, kw, node)
            return outs
        ci = self.class_of(f)
        if ci is not None:
            m = self.prog.find_method(ci, '__call__')
            if m is not None:
                return self.call_fn(st, FnV(m, f), args, kw, node)
        h = self.hooks.get('call:term')
        if h is not None:
            r = h(self, st, f, args, kw, node)
            if r is not None:
                return r
        if isinstance(f, T) and f.op == 'attr':
            return self.call_method(st, f.args[0], f.args[1], args, kw, node)
        return self.opaque_call(st, f, None, args, kw, node)

    # ------------------------------------------------------------------ external functions
    def call_ext(self, st, name, args, kw, node):
        h = self.hooks.get('ext:' + name)
        if h is not None:
            r = h(self, st, name, args, kw, node)
            if r is not None:
                return r
        if name.startswith('builtins.'):
            name = name[9:]
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None and not any(isinstance(a, tuple) for a in args) and '**' not in kw:
            r = m(st, args, kw, node)
            if r is not None:
                return r
        if self.floats and name.startswith(('math.', 'cmath.')) and not kw:
            xs = [cval(a) if isinstance(a, Val) else None for a in args]
            f = getattr(cmath if name.startswith('cmath.') else math, name.partition('.')[2], None)
            if f is not None and None not in xs:
                try:
                    r = f(*xs)
                    if isinstance(r, (int, float, complex)):
                        return [(st, K(r.real if isinstance(r, complex) and not r.imag else r))]
                except (ValueError, OverflowError, TypeError):
                    return [(st, Exc('ValueError', self.loc(st, node)))]
        if name in NUMFUN and args and isinstance(args[0], Val):
            return [(st, self.numfun(NUMFUN[name], args[0]))]
        if isinstance(getattr(builtins, name, None), type) and issubclass(getattr(builtins, name), BaseException):
            return [(st, T('exc', name, *[a for a in args if isinstance(a, Val)]))]
        pure = name.startswith(PURE_EXT) or name in ('str', 'repr', 'hash', 'id', 'bin', 'hex', 'format', 'iter', 'round', 'ord',
                                                      'chr', 'divmod', 'map', 'filter', 'frozenset', 'object', 'vars', 'callable')
        return self.opaque_call(st, ExtV(name), None, args, kw, node, pure=pure)

    def fl(self, v):
        """Constants as floating-point numbers, when numbers are to be followed as the program computes them."""
        if self.floats and isinstance(v, T):
            x = cval(v)
            if x is not None:
                return K(x if isinstance(x, complex) and x.imag else x.real if isinstance(x, complex) else x)
        return v

    def numfun(self, op, x):
        if self.floats:
            y = cval(x)
            if y is not None:
                try:
                    r = getattr(cmath if isinstance(y, complex) or op == 'sqrt' and y < 0 else math, op)(y)
                    return K(r.real if isinstance(r, complex) and not r.imag else r)
                except (ValueError, OverflowError):
                    pass
        c = const_of(x)
        if c == 0:
            return {'cos': K(1), 'sin': K(0), 'exp': K(1), 'sqrt': K(0), 'tan': K(0)}[op]
        if op == 'sqrt' and c is not None:
            for b in range(0, 12):
                if c == Fraction(2) ** (2 * b) or c == Fraction(1, 4 ** b):
                    return from_poly({(): Fraction(2) ** b if c >= 1 else Fraction(1, 2 ** b)})
            if c == 2:
                return SQRT2
            if c == Fraction(1, 2):
                return from_poly({((SQRT2, 1),): Fraction(1, 2)})
            if c > 0:
                for f, m in ((c, ()), (c / 2, ((SQRT2, 1),))):
                    r = Fraction(math.isqrt(f.numerator), math.isqrt(f.denominator))
                    if r * r == f:
                        return from_poly({m: r})
        return T(op, x)

    def x_len(self, st, a, kw, node):
        v = a[0]
        ci = self.class_of(v)
        if ci is not None and self.prog.find_method(ci, '__len__'):
            return self.call_fn(st, FnV(self.prog.find_method(ci, '__len__'), v), [], {}, node)
        if isinstance(v, K) and isinstance(v.v, (str, bytes, tuple)):
            return [(st, K(len(v.v)))]
        if isinstance(v, T) and v.op == 'matrix':
            return [(st, K(len(v.args[0])))]
        return [(st, self.length(st, v))]

    def x_isinstance(self, st, a, kw, node):
        return [(st, self.isinst(st, a[0], a[1]))]

    def x_issubclass(self, st, a, kw, node):
        if isinstance(a[0], ClsV) and isinstance(a[1], ClsV):
            return [(st, K(self.prog.is_sub(a[0].ci, a[1].ci)))]
        return None

    def isinst(self, st, x, c):
        if is_tuple(c):
            rs = [self.isinst(st, x, y) for y in c.args]
            if any(r == TRUE for r in rs):
                return TRUE
            rs = [r for r in rs if r != FALSE]
            if not rs:
                return FALSE
            return rs[0] if len(rs) == 1 else T('or', *rs)
        ci = self.class_of(x)
        if isinstance(c, ClsV):
            if ci is not None:
                return K(self.prog.is_sub(ci, c.ci))
            if isinstance(x, (K, ClsV, FnV, ModV)) or is_tuple(x) or self.kind(x) in ('list', 'dict', 'set'):
                return FALSE
            if is_num(x):
                return FALSE
        if isinstance(c, ExtV):
            n = c.name.replace('builtins.', '')
            py = getattr(builtins, n, None) if '.' not in n else None
            if isinstance(x, K):
                if isinstance(py, type):
                    return K(isinstance(x.v, py))
                if n in ('numbers.Number', 'numbers.Integral', 'numbers.Real'):
                    return K(isinstance(x.v, (int, float) + ((complex,) if n.endswith('Number') else ())))
                return FALSE
            if is_tuple(x):
                return K(n in ('tuple', 'object', 'collections.abc.Iterable'))
            if isinstance(x, T) and x.op == 'slice':
                return K(n in ('slice', 'object'))
            k = self.kind(x)
            if ci is not None:
                if isinstance(x, T) and x.op == 'enum' and n == 'int':
                    return K(self._intenum(x))
                if any(isinstance(m, str) and m.replace('builtins.', '') == n for m in self.prog.mro(ci)):
                    return TRUE
                return K(n == 'object')
            if k:
                return K(n == k or n in ('collections.abc.Iterable', 'object') or
                         n in ('collections.abc.Sequence',) and k == 'list')
            if self.floats and isinstance(x, T) and (x.op in ('sym', 'inv') or is_num(x)) and n in ('int', 'float', 'complex') and not is_len(x):
                y = cval(x)
                return K(isinstance(y, py) if y is not None else n == 'float')
            if is_num(x):
                if n in ('list', 'tuple', 'dict', 'set', 'str', 'numpy.ndarray', 'bool', 'slice'):
                    return FALSE
                if n in ('numbers.Number',):
                    return TRUE
                if is_len(x) and n == 'int':
                    return TRUE
            if isinstance(x, (FnV, ClsV, ModV)):
                return FALSE
            if isinstance(x, T) and x.op == 'fstr':
                return K(n == 'str')
        return T('isinst', x, c)

    def x_type(self, st, a, kw, node):
        if len(a) == 1:
            ci = self.class_of(a[0])
            if ci is not None:
                return [(st, ClsV(ci))]
            if isinstance(a[0], K):
                return [(st, ExtV('builtins.' + type(a[0].v).__name__))]
            k = self.kind(a[0])
            if k:
                return [(st, ExtV('builtins.' + k))]
            return [(st, T('type', a[0]))]
        return None

    def x_list(self, st, a, kw, node):
        return [(st, self.new_list(st, self.segs(st, a[0]) if a else ()))]

    def x_set(self, st, a, kw, node):
        return self.make_set(st, self.segs(st, a[0]) if a else (), node)

    def has_eq(self, v):
        """The value (or part of a tuple) is an object comparing itself with others by its own method."""
        if is_tuple(v):
            return any(self.has_eq(x) for x in v.args)
        ci = self.class_of(v)
        return ci is not None and self.prog.find_method(ci, '__eq__') is not None

    def make_set(self, st, segs, node):
        out = []
        for s in segs:
            if s not in out:
                out.append(s)
        if not all(s[0] == 'item' for s in out) or len(out) > 30 or not any(self.has_eq(s[1]) for s in out):
            return [(st, self.new_list(st, out, 'set'))]
        res, work = [], [(st, 0, ())]
        while work:
            s, i, acc = work.pop()
            if i == len(out):
                res.append((s, self.new_list(s, [('item', x) for x in acc], 'set')))
                continue
            for s2, j in self.find_item(s, acc, out[i][1], node):
                if isinstance(j, Exc):
                    res.append((s2, j))
                else:
                    work.append((s2, i + 1, acc if j is not None else acc + (out[i][1],)))
        return res

    def canon_key(self, st, d, k, node):
        """The key of the dictionary that equals k (by the key's own __eq__), or k itself."""
        if not self.has_eq(k):
            return [(st, k)]
        ks = st.dkeys.get(d, self.g_dkeys.get(d))
        if ks is None or k in ks or len(ks) > 60:
            return [(st, k)]
        outs = []
        for s, j in self.find_item(st, ks, k, node):
            if isinstance(j, Exc):
                outs.append((s, j))
            elif j is None:
                for kk in ks:
                    s.facts[self.norm_fact(s, T('cmp', '==', kk, k))[0]] = False
                outs.append((s, k))
            else:
                outs.append((s, ks[j]))
        return outs

    def x_weakref_WeakSet(self, st, a, kw, node):
        outs = self.x_set(st, a, kw, node)
        for _, v in outs:
            if isinstance(v, Ref):
                self.weak.add(v.oid)
        return outs

    def x_weakref_ref(self, st, a, kw, node):
        return [(st, T('weakref', a[0]))]

    def x_sys_exc_info(self, st, a, kw, node):
        cur = st.notes.get('exc')
        if cur is None:
            return None
        ev = T('excval', cur.name)
        st.notes[('excval', ev)] = cur.cls
        return [(st, tup(ExtV('builtins.' + cur.cls) if isinstance(cur.cls, str) else ClsV(cur.cls), ev, T('tb')))]

    def x_id(self, st, a, kw, node):
        return [(st, T('id', a[0]))]

    def x_hash(self, st, a, kw, node):
        ci = self.class_of(a[0])
        m = self.prog.find_method(ci, '__hash__') if ci is not None else None
        if m is not None:
            return self.call_fn(st, FnV(m, a[0]), [], {}, node)
        return [(st, T('hash', self.freeze(st, a[0])))]

    def x_hex(self, st, a, kw, node):
        return [(st, K(hex(a[0].v)))] if isinstance(a[0], K) and isinstance(a[0].v, int) else None

    def x_ord(self, st, a, kw, node):
        return [(st, K(ord(a[0].v)))] if isinstance(a[0], K) and isinstance(a[0].v, str) and len(a[0].v) == 1 else None

    def x_chr(self, st, a, kw, node):
        return [(st, K(chr(a[0].v)))] if isinstance(a[0], K) and isinstance(a[0].v, int) else None

    def x_round(self, st, a, kw, node):
        if all(isinstance(x, K) for x in a) and isinstance(a[0].v, (int, float)):
            return [(st, K(round(*[x.v for x in a])))]
        if len(a) == 2 and isinstance(a[1], K) and a[1].v >= 9 and numval(a[0]) is not None:
            return [(st, a[0])]  # rounding of an exact constant to the documented precision
        if len(a) == 2 and isinstance(a[1], K) and numval(a[0]) is not None:
            return [(st, K(round(numval(a[0]), a[1].v)))]
        return [(st, T('round', *a))]

    def x_divmod(self, st, a, kw, node):
        if all(isinstance(x, K) and isinstance(x.v, int) for x in a) and a[1].v:
            return [(st, tup(*map(K, divmod(a[0].v, a[1].v))))]
        return None

    def x_bin(self, st, a, kw, node):
        if isinstance(a[0], K) and isinstance(a[0].v, int):
            return [(st, K(bin(a[0].v)))]
        return None

    x_frozenset = x_set

    def x_tuple(self, st, a, kw, node):
        if not a:
            return [(st, tup())]
        it = self.items(st, a[0])
        if it is not None:
            return [(st, tup(*it))]
        if isinstance(a[0], Ref):
            return [(st, self.new_list(st, self.segs(st, a[0])))]
        return [(st, T('tuplev', a[0]))]

    def x_dict(self, st, a, kw, node):
        if not a:
            return [(st, self.new_dict(st, [(K(k), v) for k, v in kw.items()]))]
        ks = st.dkeys.get(a[0], self.g_dkeys.get(a[0]))
        if ks is not None:
            return [(st, self.new_dict(st, [(k, self.ditem(st, a[0], k)) for k in ks]))]
        it = self.items(st, a[0])
        if it is not None and all(is_tuple(x) and len(x.args) == 2 for x in it):
            return [(st, self.new_dict(st, [x.args for x in it]))]
        return [(st, T('copy', a[0]))]

    def ditem(self, st, d, k):
        v = st.ditems.get((d, k))
        return self.g_ditems.get((d, k)) if v is None else v

    def x_range(self, st, a, kw, node):
        if len(a) == 1:
            return [(st, T('range', K(0), a[0], K(1)))]
        return [(st, T('range', a[0], a[1], a[2] if len(a) > 2 else K(1)))]

    def x_enumerate(self, st, a, kw, node):
        it = self.items(st, a[0])
        start = a[1] if len(a) > 1 else kw.get('start', K(0))
        if it is not None:
            return [(st, self.new_list(st, [('item', tup(self.arith('+', start, K(i)), x)) for i, x in enumerate(it)]))]
        return [(st, T('enumerate', a[0], start))]

    def x_zip(self, st, a, kw, node):
        its = [self.items(st, x) for x in a]
        if all(i is not None for i in its):
            return [(st, self.new_list(st, [('item', tup(*x)) for x in zip(*its)]))]
        known = [len(i) for i in its if i is not None]
        if known and min(known) == 0:
            return [(st, self.new_list(st))]
        if all(len(self.segs(st, x)) == 1 for x in a):
            return [(st, T('zip', *[self.as_iter(st, x) for x in a]))]
        return [(st, T('zip', *[self.freeze(st, x) for x in a]))]

    def as_iter(self, st, v):
        s = self.segs(st, v)
        if len(s) == 1 and s[0][0] == 'splat':
            return s[0][1]
        return v

    def x_reversed(self, st, a, kw, node):
        it = self.items(st, a[0])
        if it is not None:
            return [(st, self.new_list(st, [('item', x) for x in it[::-1]]))]
        s = self.segs(st, a[0])
        if len(s) == 1 and s[0][0] == 'splat':
            return [(st, T('reversed', s[0][1]))]
        return [(st, T('reversed', self.freeze(st, a[0])))]

    def x_sorted(self, st, a, kw, node):
        it = self.items(st, a[0])
        if it is not None and not kw:
            if all(isinstance(x, K) for x in it):
                try:
                    return [(st, self.new_list(st, [('item', x) for x in sorted(it, key=lambda k: k.v)]))]
                except TypeError:
                    pass
            if len(it) <= 1:
                return [(st, self.new_list(st, [('item', x) for x in it]))]
        if it is not None and len(it) <= 1:
            return [(st, self.new_list(st, [('item', x) for x in it]))]
        if it is not None and set(kw) <= {'key', 'reverse'}:
            rev = kw.get('reverse', FALSE)
            outs = []
            for s, keys in self.keys_of(st, it, kw.get('key'), node):
                if keys is not None and isinstance(rev, K):
                    order = sorted(range(len(it)), key=lambda i: keys[i], reverse=bool(rev.v))
                    outs.append((s, self.new_list(s, [('item', it[i]) for i in order])))
                else:
                    outs.append((s, T('sorted', self.freeze(s, a[0]))))
            return outs
        return [(st, T('sorted', self.freeze(st, a[0])))]

    def keys_of(self, st, it, key, node):
        """Comparable sort keys of the elements -> [(state, keys | None)]"""
        outs = [(st, [])]
        for x in it:
            nxt = []
            for s, acc in outs:
                if acc is None:
                    nxt.append((s, None))
                    continue
                for s2, v in (self.call_value(s, key, [x], {}, node) if key is not None and key != NONE else [(s, x)]):
                    c = self._sortkey(s2, v)
                    nxt.append((s2, None if c is None else acc + [c]))
            outs = nxt
        res = []
        for s, acc in outs:
            if acc is not None:
                try:
                    sorted(acc)
                except TypeError:
                    acc = None
            res.append((s, acc))
        return res

    def _sortkey(self, st, v):
        if isinstance(v, K) and isinstance(v.v, (int, float, str)):
            return v.v
        it = self.items(st, v) if self.kind(v) in ('tuple', 'list') else None
        if it is not None:
            r = [self._sortkey(st, x) for x in it]
            return None if None in r else tuple(r)
        return None

    def x_itertools_groupby(self, st, a, kw, node):
        it = self.items(st, a[0])
        key = kw.get('key', a[1] if len(a) > 1 else None)
        if it is None:
            return None
        outs = []
        for s, keys in self.keys_of(st, it, key, node):
            if keys is None:
                outs.append((s, T('groupby', self.freeze(s, a[0]))))
                continue
            groups = []
            for k, x in zip(keys, it):
                if groups and groups[-1][0] == k:
                    groups[-1][1].append(x)
                else:
                    groups.append((k, [x]))
            outs.append((s, self.new_list(s, [('item', tup(K(k) if not isinstance(k, tuple) else tup(*map(K, k)),
                                                           self.new_list(s, [('item', x) for x in g]))) for k, g in groups])))
        return outs

    def x_sum(self, st, a, kw, node):
        it = self.items(st, a[0])
        if it is not None and all(is_num(x) or isinstance(x, K) for x in it):
            p = {}
            for x in it:
                p = padd(p, to_poly(x))
            return [(st, from_poly(p))]
        return [(st, T('sum', self.freeze(st, a[0])))]

    def x_abs(self, st, a, kw, node):
        if self.floats and cval(a[0]) is not None:
            return [(st, K(abs(cval(a[0]))))]
        c = const_of(a[0])
        if c is not None:
            return [(st, from_poly({(): abs(c)} if c else {}))]
        x = numval(a[0])
        if x is not None:
            return [(st, a[0] if x >= 0 else from_poly(pscale(to_poly(a[0]), Fraction(-1))))]
        if is_num(a[0]):
            re, im = reim(a[0])
            if re is not None:
                return [(st, self.numfun('sqrt', from_poly(padd(pmul(re, re), pmul(im, im)))))]
        return [(st, T('abs', a[0]))]

    def x_min(self, st, a, kw, node, op=min):
        it = a if len(a) > 1 else self.items(st, a[0])
        if it is not None and len(it) == 0 and not kw:
            return [(st, Exc('ValueError', self.loc(st, node)))]
        if it and all(const_of(x) is not None for x in it):
            return [(st, from_poly({(): op(const_of(x) for x in it)}) if op(const_of(x) for x in it) else K(0))]
        return [(st, T(op.__name__, *[self.freeze(st, x) for x in a]))]

    def x_max(self, st, a, kw, node):
        return self.x_min(st, a, kw, node, max)

    def x_int(self, st, a, kw, node):
        if not a:
            return [(st, K(0))]
        if isinstance(a[0], K) and not kw:
            try:
                return [(st, K(int(a[0].v, *[x.v for x in a[1:]])))]
            except Exception:
                return [(st, Exc('ValueError', self.loc(st, node)))]
        if is_len(a[0]) or isinstance(a[0], T) and a[0].op in ('poly', 'floordiv', 'mod') and len(a) == 1:
            return [(st, a[0])]
        ci = self.class_of(a[0])
        m = self.prog.find_method(ci, '__int__') if ci is not None else None
        if m is not None:
            return self.call_fn(st, FnV(m, a[0]), [], {}, node)
        if isinstance(a[0], T) and a[0].op in ('not', 'cmp', 'and', 'or', 'in', 'isinst'):
            return [(s, b if isinstance(b, Exc) else K(int(b))) for s, b in self.truth(a[0], st)]
        return [(st, T('int', *a))]

    def x_float(self, st, a, kw, node):
        if isinstance(a[0], K):
            try:
                return [(st, K(float(a[0].v)))]
            except Exception:
                return [(st, T('float', a[0]))]
        if numval(a[0]) is not None:
            return [(st, a[0])]
        return [(st, T('float', a[0]))]

    def x_complex(self, st, a, kw, node):
        p = to_poly(a[0])
        if len(a) > 1:
            p = padd(p, pmul(to_poly(a[1]), {((IM, 1),): Fraction(1)}))
        return [(st, from_poly(p))]

    def x_bool(self, st, a, kw, node):
        if not a:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Exc) else K(b)) for s, b in self.truth(a[0], st)]

    def x_str(self, st, a, kw, node):
        if a and isinstance(a[0], K):
            return [(st, K(str(a[0].v)))]
        ci = self.class_of(a[0]) if a else None
        if ci is not None:
            m = self.prog.find_method(ci, '__str__')
            if m is not None:
                return self.call_fn(st, FnV(m, a[0]), [], {}, node)
        if len(a) == 1 and isinstance(a[0], T) and a[0].op == 'excval':
            v = st.notes.get(('excargs', a[0]))
            if v is not None and len(v) == 1 and a[0].args[0] != 'KeyError':
                return self.x_str(st, list(v), kw, node)
        if len(a) == 1:
            try:
                return [(st, K(str(self.pyval(st, a[0]))))]
            except NoVal:
                pass
        return [(st, T('str', *[self.freeze(st, x) for x in a]))]

    def pyval(self, st, v, depth=0):
        """The Python value of a completely known value."""
        if isinstance(v, K):
            return v.v
        if is_tuple(v):
            return tuple(self.pyval(st, x, depth + 1) for x in v.args)
        if isinstance(v, T):
            n = numval(v)
            if n is not None:
                return n
        if isinstance(v, Ref) and depth < 12:
            k = self.kind(v)
            if k in ('list', 'set'):
                it = self.items(st, v)
                if it is not None:
                    it = [self.pyval(st, x, depth + 1) for x in it]
                    return it if k == 'list' else set(it)
            if k == 'dict':
                ks = st.dkeys.get(v, self.g_dkeys.get(v))
                if ks is not None:
                    return {self.pyval(st, x, depth + 1): self.pyval(st, self.ditem(st, v, x), depth + 1) for x in ks}
        raise NoVal

    def from_py(self, st, x):
        if isinstance(x, list):
            return self.new_list(st, [('item', self.from_py(st, y)) for y in x])
        if isinstance(x, tuple):
            return tup(*[self.from_py(st, y) for y in x])
        if isinstance(x, dict):
            return self.new_dict(st, [(self.from_py(st, a), self.from_py(st, b)) for a, b in x.items()])
        return K(x)

    def x_json_dumps(self, st, a, kw, node):
        try:
            return [(st, K(json.dumps(self.pyval(st, a[0]))))]
        except (NoVal, TypeError, ValueError):
            return None

    def x_json_loads(self, st, a, kw, node):
        if isinstance(a[0], K):
            try:
                return [(st, self.from_py(st, json.loads(a[0].v)))]
            except (TypeError, ValueError):
                return [(st, Exc('ValueError', self.loc(st, node)))]
        return None

    def x_repr(self, st, a, kw, node):
        if isinstance(a[0], K):
            return [(st, K(repr(a[0].v)))]
        return None

    def x_iter(self, st, a, kw, node):
        return [(st, a[0])]

    def x_next(self, st, a, kw, node):
        s = self.segs(st, a[0])
        if s and s[0][0] == 'item':
            return [(st, s[0][1])]
        return None

    def x_callable(self, st, a, kw, node):
        if isinstance(a[0], (FnV, ClsV)):
            return [(st, TRUE)]
        if isinstance(a[0], K):
            return [(st, FALSE)]
        ci = self.class_of(a[0])
        if ci is not None and not self.prog.has_ext_base(ci):
            return [(st, K(self.prog.find_method(ci, '__call__') is not None))]
        return [(st, T('callable', a[0]))]

    def x_inspect_isclass(self, st, a, kw, node):
        if isinstance(a[0], ClsV) or isinstance(a[0], ExtV) and a[0].name.startswith('builtins.') and isinstance(getattr(builtins, a[0].name[9:], None), type):
            return [(st, TRUE)]
        if isinstance(a[0], (K, FnV, ModV, Ref)):
            return [(st, FALSE)]
        return None

    def x_inspect_isfunction(self, st, a, kw, node):
        if isinstance(a[0], (FnV, K, Ref, ClsV, ModV)):
            return [(st, K(isinstance(a[0], FnV) and (a[0].selfv is None)))]
        return None

    def x_hasattr(self, st, a, kw, node):
        n = a[1].v if isinstance(a[1], K) else None
        ci = self.class_of(a[0])
        if n and self.getattr_heap(st, a[0], n) is not None:
            return [(st, TRUE)]
        if ci is not None and n and (self.prog.find_method(ci, n) or self.prog.find_attr(ci, n)):
            return [(st, TRUE)]
        if ci is not None and n and self.missing(ci, a[0], n):
            return [(st, FALSE)]
        return [(st, T('hasattr', *a))]

    def x_getattr(self, st, a, kw, node):
        if isinstance(a[1], K):
            return self.get_attr(st, a[0], a[1].v, node)
        return [(st, T('getattr', *a))]

    def x_setattr(self, st, a, kw, node):
        if isinstance(a[1], K):
            return [(s, NONE if not isinstance(v, Exc) else v) for s, v in self.set_attr(st, a[0], a[1].v, a[2], node)]
        return None

    def x_super(self, st, a, kw, node):
        fi, fid = st.stack[-1]
        e = st.frames[fid]
        while e.get('$fi').cls is None and e.get('$closure') is not None:
            e = self.frame(st, e['$closure'])
        if len(a) == 2:
            return [(st, SuperV(a[0].ci, a[1]))]
        an = e['$fi'].node.args
        first = (an.posonlyargs + an.args)[0].arg
        return [(st, SuperV(e['$fi'].cls, e[first]))]

    def x_print(self, st, a, kw, node):
        self.effect(st, 'print', node, name='print', args=tuple(self.freeze(st, x) for x in a),
                    kw=tuple(sorted(kw.items(), key=lambda t: t[0])))
        return [(st, NONE)]

    def x_any(self, st, a, kw, node):
        return self._anyall(st, a[0], True, node)

    def x_all(self, st, a, kw, node):
        return self._anyall(st, a[0], False, node)

    def _anyall(self, st, v, want, node):
        outs = []
        work = [(st, list(self.segs(st, v)))]
        while work:
            s, segs = work.pop()
            if not segs:
                outs.append((s, K(not want)))
                continue
            x = segs[0]
            if x[0] == 'item':
                for s2, b in self.truth(x[1], s):
                    if b == want:
                        outs.append((s2, K(want)))
                    else:
                        work.append((s2, segs[1:]))
            else:
                it = x[1]
                conds = []
                if x[0] == 'splat':
                    conds.append(frozenset([(T('truthy', T('elem', it)), want)]))
                else:
                    for c, sg in x[2]:
                        for y in sg:
                            if y[0] == 'item':
                                t = y[1]
                                tv = self.truth_term(s, t)
                                if tv is True or tv is False:
                                    if tv == want:
                                        conds.append(frozenset(c))
                                else:
                                    f, pol = self.norm_fact(s, t)
                                    conds.append(frozenset(c) | {(f, pol == want)})
                            else:
                                conds.append(frozenset(c) | {(T('truthy', T('elem', y[1])), want)})
                if not conds:
                    work.append((s, segs[1:]))
                    continue
                f = T('any', it, frozenset(conds))
                for s2, b in self.split(s, f):
                    if b:
                        outs.append((s2, K(want)))
                    else:
                        work.append((s2, segs[1:]))
        return outs

    def x_copy_deepcopy(self, st, a, kw, node):
        return self.do_copy(st, a[0], True, node)

    def x_copy_copy(self, st, a, kw, node):
        return self.do_copy(st, a[0], False, node)

    def do_copy(self, st, v, deep, node, depth=0):
        if isinstance(v, (K, ClsV, FnV, ModV)) or is_num(v) and not isinstance(v, Ref):
            return [(st, v)]
        ci = self.class_of(v)
        if ci is not None:
            m = self.prog.find_method(ci, '__deepcopy__' if deep else '__copy__')
            if m is not None:
                return self.call_fn(st, FnV(m, v), [NONE] if deep else [], {}, node)
        if is_tuple(v) and deep:
            outs = [(st, [])]
            for x in v.args:
                nxt = []
                for s, acc in outs:
                    for s2, y in self.do_copy(s, x, deep, node, depth + 1):
                        nxt.append((s2, acc + [y]))
                outs = nxt
            return [(s, tup(*acc)) for s, acc in outs]
        if is_tuple(v):
            return [(st, v)]
        k = self.kind(v)
        if k in ('list', 'set') and isinstance(v, Ref):
            r = self.new(v.tag, kind=self.kind_of.get(v.oid), ci=ci)
            segs = self.segs(st, v)
            if deep:
                outs = [(st, [])]
                for sg in segs:
                    nxt = []
                    for s, acc in outs:
                        if sg[0] == 'item':
                            for s2, y in self.do_copy(s, sg[1], deep, node, depth + 1):
                                nxt.append((s2, acc + [('item', y)]))
                        elif sg[0] == 'splat':
                            nxt.append((s, acc + [('splat', T('deepcopy', sg[1]))]))
                        else:
                            nxt.append((s, acc + [sg]))
                    outs = nxt
                res = []
                for s, acc in outs:
                    s.lists[r] = tuple(acc)
                    res.append((s, r))
                return res
            st.lists[r] = segs
            return [(st, r)]
        if k == 'dict':
            ks = st.dkeys.get(v, self.g_dkeys.get(v))
            if ks is not None:
                r = self.new_dict(st)
                st.dkeys[r] = ks
                outs = [st]
                for key in ks:
                    nxt = []
                    for s in outs:
                        val = self.ditem(s, v, key)
                        for s2, y in (self.do_copy(s, val, deep, node, depth + 1) if deep else [(s, val)]):
                            s2.ditems[(r, key)] = y
                            nxt.append(s2)
                    outs = nxt
                return [(s, r) for s in outs]
        if isinstance(v, Ref) and ci is not None and depth < 6:
            r = self.new_obj(ci)
            names = {n for (b, n) in list(st.attrs) + list(self.g_attrs) if b == v}
            outs = [st]
            st.notes[('copied', r)] = (v, deep)
            for n in sorted(names):
                nxt = []
                for s in outs:
                    val = self.getattr_heap(s, v, n)
                    if val == v:
                        s.attrs[(r, n)] = r
                        nxt.append(s)
                        continue
                    for s2, y in (self.do_copy(s, val, deep, node, depth + 1) if deep else [(s, val)]):
                        s2.attrs[(r, n)] = y
                        nxt.append(s2)
                outs = nxt
            return [(s, r) for s in outs]
        if is_num(v) or isinstance(v, T) and (v.op == 'round' or v.op == 'sym' and self.floats):
            return [(st, v)]
        return [(st, T('deepcopy' if deep else 'copy', v))]

    def x_functools_partial(self, st, a, kw, node):
        return [(st, T('partial', a[0], tuple(a[1:]), tuple(sorted(kw.items()))))]

    def x_itertools_chain(self, st, a, kw, node):
        segs = []
        for x in a:
            segs += self.segs(st, x)
        return [(st, self.new_list(st, segs))]

    def _combi(self, st, a, kw, fn):
        cols = []
        rest = list(a)
        n = kw.get('r', kw.get('repeat'))
        if fn != 'product' and n is None and len(rest) > 1:
            n = rest.pop()
        if n is not None:
            n = const_of(n) if isinstance(n, Val) else None
            if n is None:
                return None
            n = int(n)
        for x in rest:
            it = self.items(st, x)
            if it is None:
                return None
            cols.append(it)
        if fn == 'product':
            g = itertools.product(*cols, repeat=n or 1)
        elif len(cols) != 1:
            return None
        elif fn == 'permutations':
            g = itertools.permutations(cols[0], *([n] if n is not None else []))
        else:
            g = getattr(itertools, fn)(cols[0], n)
        out = list(itertools.islice(g, 2000))
        if len(out) == 2000:
            return None
        return [(st, self.new_list(st, [('item', tup(*x)) for x in out]))]

    def x_itertools_permutations(self, st, a, kw, node):
        return self._combi(st, a, kw, 'permutations')

    def x_itertools_combinations(self, st, a, kw, node):
        return self._combi(st, a, kw, 'combinations')

    def x_itertools_product(self, st, a, kw, node):
        return self._combi(st, a, kw, 'product')

    def _mathint(self, st, a, fn):
        c = const_of(a[0]) if len(a) == 1 and isinstance(a[0], Val) else None
        if c is None:
            return None
        try:
            return [(st, K(int(fn(c))))]
        except (ValueError, TypeError):
            return None

    def x_math_factorial(self, st, a, kw, node):
        return self._mathint(st, a, lambda c: math.factorial(int(c)))

    def x_math_floor(self, st, a, kw, node):
        return self._mathint(st, a, math.floor)

    def x_math_ceil(self, st, a, kw, node):
        return self._mathint(st, a, math.ceil)

    def x_itertools_chain_from_iterable(self, st, a, kw, node):
        segs = []
        for s in self.segs(st, a[0]):
            if s[0] == 'item':
                segs += self.segs(st, s[1])
            elif s[0] == 'splat':
                segs.append(('each', s[1], ((frozenset(), (('splat', T('elem', s[1])),)),), False))
            else:
                return None
        return [(st, self.new_list(st, segs))]

    def x_map(self, st, a, kw, node):
        if len(a) != 2:
            return None
        return self.comp_over(st, a[1], lambda s, x: [(s, [y]) if not isinstance(y, Exc) else (s, y)
                                                      for s, y in self.call_value(s, a[0], [x], {}, node)], node)

    def x_filter(self, st, a, kw, node):
        if len(a) != 2:
            return None

        def body(s, x):
            r = []
            for s2, y in (self.call_value(s, a[0], [x], {}, node) if a[0] != NONE else [(s, x)]):
                if isinstance(y, Exc):
                    r.append((s2, y))
                    continue
                for s3, b in self.truth(y, s2):
                    r.append((s3, [x] if b else []))
            return r
        return self.comp_over(st, a[1], body, node)

    def x_numpy_array(self, st, a, kw, node):
        rows = self.items(st, a[0])
        if rows is not None:
            rr = [self.items(st, r) if not is_num(r) and not isinstance(r, K) else None for r in rows]
            if all(r is not None for r in rr):
                return [(st, T('matrix', tuple(tuple(r) for r in rr)))]
            return [(st, T('vector', tuple(rows)))]
        return [(st, T('nparray', self.freeze(st, a[0])))]

    x_numpy_matrix = x_numpy_array

    def x_numpy_random_choice(self, st, a, kw, node):
        it = self.items(st, a[0])
        if it:
            p = kw.get('p', a[3] if len(a) > 3 else None)
            ps = self.items(st, p) if p is not None else None
            if ps is not None and all(numval(x) is not None for x in ps):  # the first outcome that is not impossible
                it = [x for x, y in zip(it, ps) if numval(y) > 0] or it
            return [(st, it[0])]
        return None

    def x_collections_Counter(self, st, a, kw, node):
        it = self.items(st, a[0]) if a else []
        if it is not None and all(isinstance(x, K) for x in it):
            cnt = {}
            for x in it:
                cnt[x] = cnt.get(x, 0) + 1
            return [(st, self.new_dict(st, [(k, K(v)) for k, v in cnt.items()]))]
        return None

    def x_numpy_allclose(self, st, a, kw, node):
        if a[0] == a[1]:
            return [(st, TRUE)]
        return [(st, T('allclose', self.freeze(st, a[0]), self.freeze(st, a[1])))]

    def x_numpy_transpose(self, st, a, kw, node):
        if isinstance(a[0], T) and a[0].op == 'matrix':
            return [(st, T('matrix', tuple(zip(*a[0].args[0]))))]
        return None

    # ------------------------------------------------------------------ methods of containers and opaque objects
    def call_method(self, st, recv, name, args, kw, node):
        h = self.hooks.get('m:' + name)
        if h is not None:
            r = h(self, st, recv, name, args, kw, node)
            if r is not None:
                return r
        if isinstance(recv, SuperV):
            # method of an external base class
            if name == '__init__':
                ci = self.class_of(recv.selfv)
                if ci is not None and self.prog.is_sub(ci, 'builtins.list'):
                    st.lists[recv.selfv] = self.segs(st, args[0]) if args else ()
                return [(st, NONE)]
            ci = self.class_of(recv.selfv)
            if ci is not None and self.kind(recv.selfv) == 'list' and self.prog.is_sub(ci, 'builtins.list') and hasattr(list, name):
                if name == '__getitem__':
                    return self._subscript(st, recv.selfv, args[0], node)
                if name == '__setitem__':
                    return self._set_item(st, recv.selfv, args[0], args[1], node)
                if name == '__len__':
                    return [(st, self.length(st, recv.selfv))]
                r = self.list_method(st, recv.selfv, name, args, kw, node)
                if r is not None:
                    return r
            return self.opaque_call(st, recv.selfv, 'super.' + name, args, kw, node, pure=name in ('__str__', '__repr__', '__hash__'))
        if isinstance(recv, K) and isinstance(recv.v, str):
            fr = []
            for a in args:
                if isinstance(a, K):
                    fr.append(a.v)
                elif isinstance(a, Val) and self.items(st, a) is not None and all(isinstance(x, K) for x in self.items(st, a)):
                    fr.append([x.v for x in self.items(st, a)])
                else:
                    break
            else:
                if not kw and hasattr(str, name):
                    try:
                        r = getattr(recv.v, name)(*fr)
                    except Exception:
                        return [(st, Exc('ValueError', self.loc(st, node)))]
                    if isinstance(r, list):
                        return [(st, self.new_list(st, [('item', K(x)) for x in r]))]
                    if isinstance(r, tuple):
                        return [(st, tup(*map(K, r)))]
                    return [(st, K(r))]
            if name == 'format':
                try:
                    return [(st, K(recv.v.format(*[self.pyval(st, a) for a in args], **{k: self.pyval(st, a) for k, a in kw.items()})))]
                except NoVal:
                    pass
                except (ValueError, IndexError, KeyError, TypeError) as e:
                    return [(st, Exc(type(e).__name__, self.loc(st, node)))]
                return [(st, T('format', recv, tuple(args), tuple(sorted(kw.items()))))]
            if name == 'join':
                return [(st, T('join', recv, self.freeze(st, args[0])))]
            return [(st, T('strop', name, recv, *[self.freeze(st, a) for a in args]))]
        if isinstance(recv, T) and recv.op in ('fstr', 'str', 'format', 'join', 'strop') and hasattr(str, name):
            return [(st, T('strop', name, recv, *[self.freeze(st, a) for a in args]))]
        if isinstance(recv, ClsV) and name == 'mro' and not args:
            return [(st, self.new_list(st, [('item', x) for x in self.mro_tuple(recv.ci).args]))]
        k = self.kind(recv)
        if isinstance(recv, T) and recv.op == 'matrix' and name in ('tolist', 'copy'):
            return [(st, recv)]
        if k == 'dict' or (name in ('items', 'keys', 'values', 'get', 'setdefault') and k is None and not isinstance(recv, ModV)):
            r = self.dict_method(st, recv, name, args, kw, node)
            if r is not None:
                return r
        if (k in ('list', 'set', 'tuple') or recv in st.lists or k is None and name in
                ('append', 'extend', 'insert', 'add', 'discard', 'clear', 'sort', 'reverse', 'remove', 'pop', 'update')):
            r = self.list_method(st, recv, name, args, kw, node)
            if r is not None:
                return r
        if name == 'conjugate' and not args and is_num(recv) and (reim(recv)[0] is not None or conjugable(recv)):
            return [(st, conj(recv))]
        if isinstance(recv, T) and recv.op == 'matrix' and name in ('getH', 'conj', 'conjugate', 'transpose') and not args:
            m = recv.args[0]
            if name in ('getH', 'transpose'):
                m = tuple(zip(*m))
            if name != 'transpose':
                m = tuple(tuple(conj(x) for x in r) for r in m)
            return [(st, T('matrix', m))]
        if isinstance(recv, T) and recv.op == 'matrix' and name in ('getH', 'conj', 'conjugate', 'transpose', 'dot', 'all'):
            return [(st, T('matop', name, recv, *args))]
        return self.opaque_call(st, recv, name, args, kw, node,
                                pure=name in ('lower', 'upper', 'split', 'strip', 'startswith', 'endswith', 'replace', 'format',
                                              'join', 'count', 'index', 'find', 'rstrip', 'lstrip', 'union', 'intersection',
                                              'difference', 'issubset', 'issuperset', 'copy', 'tolist', 'zfill', 'conj', 'dot',
                                              'as_integer_ratio', 'bit_length', 'group', 'isdigit', 'isalpha', 'total_seconds'))

    def list_method(self, st, recv, name, args, kw, node):
        segs = self.segs(st, recv)
        isset = self.kind(recv) == 'set'

        def mut(new, ret=NONE, s=None):
            s = s or st
            s.lists[recv] = tuple(new)
            self.effect(s, 'mutate', node, target=recv, name=name, args=tuple(self.freeze(s, a) if isinstance(a, Val) else a for a in args))
            return [(s, ret)]
        if name == 'append' or name == 'add' and (self.class_of(args[0]) is None or self.items(st, recv) is None):
            if (isset or name == 'add') and ('item', args[0]) in segs:
                return mut(segs)
            return mut(segs + (('item', args[0]),))
        if name in ('extend',) or name == 'update' and isset:
            add = self.segs(st, args[0]) if args else ()
            if isset:
                add = tuple(x for x in add if x not in segs)
            return mut(segs + add)
        if name == 'insert':
            i = const_of(args[0])
            if i is not None and all(x[0] == 'item' for x in segs[: max(int(i), 0)]) and i >= 0:
                i = int(i)
                return mut(segs[:i] + (('item', args[1]),) + segs[i:])
            return mut((('splat', self.fresh('ins')),))
        if name == 'clear':
            return mut(())
        if name == 'copy':
            return [(st, self.new_list(st, segs, 'set' if isset else 'list'))]
        if name == 'reverse':
            if all(x[0] == 'item' for x in segs):
                return mut(segs[::-1])
            return mut((('splat', T('reversed', self.freeze(st, recv))),))
        if name == 'sort':
            if kw and all(x[0] == 'item' for x in segs):
                outs = []
                for s, r in self.x_sorted(st, [recv], kw, node):
                    outs += mut(self.segs(s, r), s=s)
                return outs
            if len(segs) <= 1 and all(x[0] == 'item' for x in segs):
                return mut(segs)
            if all(x[0] == 'item' and isinstance(x[1], K) for x in segs) and not kw:
                return mut(tuple(sorted(segs, key=lambda x: x[1].v)))
            return mut((('splat', T('sorted', self.freeze(st, recv))),))
        if name == 'pop' and not isset:
            i = const_of(args[0]) if args else Fraction(-1)
            if i is not None:
                i = int(i)
                if not segs:
                    return [(st, Exc('IndexError', self.loc(st, node)))]
                pre = segs[: i + 1] if i >= 0 else segs[i:]
                if all(x[0] == 'item' for x in pre) and -len(segs) <= i < len(segs):
                    v = segs[i][1]
                    i = i % len(segs)
                    return mut(segs[:i] + segs[i + 1:], v)
            fz = self.freeze(st, recv)
            v = T('popped', fz, args[0] if args else K(-1))
            return mut((('splat', T('rest', fz, args[0] if args else K(-1))),), v)
        if name in ('remove', 'discard') or name == 'add' and self.class_of(args[0]) is not None:
            it = self.items(st, recv)
            if it is not None and any(self.class_of(y) is not None for y in list(it) + [args[0]]):
                outs = []
                for s, i in self.find_item(st, it, args[0], node):
                    if isinstance(i, Exc):
                        outs.append((s, i))
                    elif name == 'add':
                        outs += mut(segs + (('item', args[0]),) if i is None else segs, s=s)
                    elif i is None:
                        outs += [(s, NONE)] if name == 'discard' else [(s, Exc('ValueError' if not isset else 'KeyError', self.loc(s, node)))]
                    else:
                        outs += mut(segs[:i] + segs[i + 1:], s=s)
                return outs
        if name in ('remove', 'discard'):
            x = args[0]
            new, hit = [], False
            for i, sg in enumerate(segs):
                if sg == ('item', x) and not hit:
                    hit = True
                    new += segs[i + 1:]
                    break
                if sg[0] == 'item' and self.eq_known(st, sg[1], x) is False:
                    new.append(sg)
                    continue
                break
            else:
                if all(sg[0] == 'item' for sg in segs):
                    if name == 'discard':
                        return mut(segs)
                    return [(st, Exc('ValueError' if not isset else 'KeyError', self.loc(st, node)))]
            if hit:
                return mut(new)
            return mut((('splat', T('without', self.freeze(st, recv), x)),))
        if name == 'index':
            it = self.items(st, recv)
            if it is not None:
                outs, work = [], [(st, 0)]
                while work:
                    s, i = work.pop()
                    if i == len(it):
                        outs.append((s, Exc('ValueError', self.loc(st, node))))
                        continue
                    for s2, b in self.truth(self.eq_term(s, it[i], args[0]), s):
                        if b:
                            outs.append((s2, K(i)))
                        else:
                            work.append((s2, i + 1))
                return outs
            return [(st, T('index', self.freeze(st, recv), args[0]))]
        if name == 'count':
            it = self.items(st, recv)
            if it is not None:
                outs = [(st, 0)]
                for x in it:
                    nxt = []
                    for s, n in outs:
                        for s2, b in self.truth(self.eq_term(s, x, args[0]), s):
                            nxt.append((s2, n + bool(b)))
                    outs = nxt
                return [(s, K(n)) for s, n in outs]
            return [(st, T('count', self.freeze(st, recv), args[0]))]
        if isset and name == 'pop' and not args:
            if not segs:
                return [(st, Exc('KeyError', self.loc(st, node)))]
            if segs[0][0] == 'item':
                return mut(segs[1:], segs[0][1])
            fz = self.freeze(st, recv)
            return mut((('splat', T('rest', fz, K(0))),), T('popped', fz, K(0)))
        if isset and name == 'issuperset' and args:
            return [(st, self.setop(st, 'issubset', args[0], recv))]
        if isset and name in ('difference_update', 'intersection_update') and args:
            r = self.setop(st, name.split('_')[0], recv, args[0])
            return mut(self.segs(st, r))
        if isset and name == 'symmetric_difference' and args:
            return [(st, self.setop(st, 'union', self.setop(st, 'difference', recv, args[0]), self.setop(st, 'difference', args[0], recv)))]
        if isset and name in ('union', 'intersection', 'difference', 'issubset', 'isdisjoint'):
            return [(st, self.setop(st, name, recv, args[0] if args else tup()))]
        return None

    def find_item(self, st, items, x, node):
        """Index of the first item equal to x (None: no such item), per path."""
        outs, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(items):
                outs.append((s, None))
                continue
            for s2, e in ([(s, TRUE)] if items[i] == x else self.compare(s, '==', items[i], x, node)):
                if isinstance(e, Exc):
                    outs.append((s2, e))
                    continue
                for s3, t in self.truth(e, s2):
                    if t is True:
                        outs.append((s3, i))
                    elif t is False:
                        work.append((s3, i + 1))
                    else:
                        outs.append((s3, t))
        return outs

    def setop(self, st, name, a, b):
        ia, ib = self.items(st, a), self.items(st, b)
        if name == 'union':
            out = list(self.segs(st, a))
            for x in self.segs(st, b):
                if x not in out:
                    out.append(x)
            return self.new_list(st, out, 'set')
        if ia is not None and ib is not None:
            tab = [[self.eq_known(st, x, y) for y in ib] for x in ia]
            if all(c is not None for r in tab for c in r):
                if name == 'intersection':
                    return self.new_list(st, [('item', x) for x, r in zip(ia, tab) if any(r)], 'set')
                if name == 'difference':
                    return self.new_list(st, [('item', x) for x, r in zip(ia, tab) if not any(r)], 'set')
                if name == 'issubset':
                    return K(all(any(r) for r in tab))
                if name == 'isdisjoint':
                    return K(not any(any(r) for r in tab))
        return T('setop', name, self.freeze(st, a), self.freeze(st, b))

    def dict_method(self, st, d, name, args, kw, node):
        if name in ('get', 'pop', 'setdefault') and args and self.has_eq(args[0]):
            outs = []
            for s, k2 in self.canon_key(st, d, args[0], node):
                outs += [(s, k2)] if isinstance(k2, Exc) else self._dict_method(s, d, name, [k2] + list(args[1:]), kw, node)
            return outs
        return self._dict_method(st, d, name, args, kw, node)

    def _dict_method(self, st, d, name, args, kw, node):
        ks = st.dkeys.get(d, self.g_dkeys.get(d))
        if name in ('items', 'keys', 'values'):
            if ks is not None:
                if name == 'keys':
                    return [(st, self.new_list(st, [('item', k) for k in ks]))]
                if name == 'values':
                    return [(st, self.new_list(st, [('item', self.ditem(st, d, k)) for k in ks]))]
                return [(st, self.new_list(st, [('item', tup(k, self.ditem(st, d, k))) for k in ks]))]
            return [(st, T(name, d))]
        if name == 'get':
            outs = []
            for s, b in self.truth(self.in_term(st, args[0], d), st):
                if b:
                    outs += self.subscript(s, d, args[0], node)
                else:
                    outs.append((s, args[1] if len(args) > 1 else NONE))
            return outs
        if name == 'setdefault':
            outs = []
            for s, b in self.truth(self.in_term(st, args[0], d), st):
                if b:
                    outs += self.subscript(s, d, args[0], node)
                else:
                    v = args[1] if len(args) > 1 else NONE
                    for s2, r in self.set_item(s, d, args[0], v, node):
                        outs.append((s2, v))
            return outs
        if name == 'pop' and args:
            outs = []
            for s, b in self.truth(self.in_term(st, args[0], d), st):
                if b:
                    for s2, v in self.subscript(s, d, args[0], node):
                        if not isinstance(v, Exc):
                            self.del_item(s2, d, args[0], node)
                        outs.append((s2, v))
                else:
                    outs.append((s, args[1] if len(args) > 1 else Exc('KeyError', self.loc(st, node))))
            return outs
        if name == 'clear':
            self.effect(st, 'mutate', node, target=d, name='clear')
            for k in st.ditems.keys_of(d):
                del st.ditems[(d, k)]
            st.dkeys[d] = ()
            return [(st, NONE)]
        if name == 'copy':
            return self.do_copy(st, d, False, node)
        if name == 'update':
            src = args[0] if args else None
            sk = st.dkeys.get(src, self.g_dkeys.get(src)) if src is not None else ()
            if sk is not None and ks is not None:
                for k in sk:
                    self.set_item(st, d, k, self.ditem(st, src, k), node)
                for k, v in kw.items():
                    self.set_item(st, d, K(k), v, node)
                return [(st, NONE)]
        return None

    # ------------------------------------------------------------------ attributes and items
    def get_attr(self, st, base, name, node):
        if isinstance(base, ModV):
            return [(st, self.mod_attr(base.name, name, st))]
        if isinstance(base, ExtV):
            if base.name.startswith('builtins.') and isinstance(getattr(builtins, base.name[9:], None), type):
                if name in ('__name__', '__qualname__'):
                    return [(st, K(base.name[9:]))]
                if name == '__class__':
                    return [(st, ExtV('builtins.type'))]
            if f'{base.name}.{name}' in ('math.pi', 'numpy.pi', 'cmath.pi'):
                return [(st, PI)]
            return [(st, ExtV(f'{base.name}.{name}'))]
        if isinstance(base, ClsV):
            m = self.prog.find_method(base.ci, name)
            if m is not None:
                return [(st, FnV(m, base if m.kind == 'classm' else None))]
            v = self.getattr_heap(st, base, name)
            if v is not None:
                return [(st, v)]
            a = self.prog.find_attr(base.ci, name)
            if a is not None:
                if any(x.endswith('Enum') for x in self.prog.has_ext_base(base.ci)):
                    v = self.class_attr(a[0], name, a[1])
                    e = T('enum', a[0].name, name, v if isinstance(v, K) else NONE)
                    self.types.setdefault(e, a[0])
                    return [(st, e)]
                return [(st, self.class_attr(a[0], name, a[1]))]
            if name in ('__name__', '__qualname__'):
                return [(st, K(base.ci.name))]
            if name == '__class__':
                return [(st, ExtV('builtins.type'))]
            if name == '__mro__':
                return [(st, self.mro_tuple(base.ci))]
            if name == '__module__':
                return [(st, K(base.ci.module.name))]
            if name == 'mro':
                return [(st, BoundExt(base, name))]
            return [(st, BoundExt(base, name) if self.prog.has_ext_base(base.ci) else T('attr', base, name))]
        if isinstance(base, SuperV):
            ci = self.class_of(base.selfv)
            if isinstance(base.selfv, ClsV):
                ci = base.selfv.ci
            start = ci if ci is not None and self.prog.is_sub(ci, base.ci) else base.ci
            m = self.prog.find_method(start, name, after=base.ci)
            if m is not None:
                if m.kind == 'property':
                    return self.call_fn(st, FnV(m, base.selfv), [], {}, node)
                return [(st, FnV(m, base.selfv))]
            return [(st, BoundExt(base, name))]
        h = self.hooks.get('attr:' + name)
        if h is not None:
            r = h(self, st, base, name, node)
            if r is not None:
                return r
        ci = self.class_of(base)
        if ci is not None:
            m = self.prog.find_method(ci, name)
            if m is not None and m.kind == 'property':
                if any(x.endswith('cached_property') for x in m.decorators) and isinstance(base, Ref):
                    v = st.attrs.get((base, name))
                    if v is not None:
                        return [(st, v)]
                    outs = self.call_fn(st, FnV(m, base), [], {}, node)
                    for s, v in outs:
                        if not isinstance(v, Exc):
                            s.attrs[(base, name)] = v
                    return outs
                return self.call_fn(st, FnV(m, base), [], {}, node)
            v = self.getattr_heap(st, base, name)
            if v is not None:
                return [(st, v)]
            if m is not None:
                if m.kind == 'static':
                    return [(st, FnV(m))]
                if m.kind == 'classm':
                    return [(st, FnV(m, ClsV(ci)))]
                return [(st, FnV(m, base))]
            if name == '__class__':
                return [(st, ClsV(ci))]
            a = self.prog.find_attr(ci, name)
            if a is not None:
                if isinstance(base, T):
                    # the object may have its own attribute; the class value is the default
                    assigned = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                                   for c in self.prog.mro(ci) if isinstance(c, ClassInfo) for f in c.methods.values()
                                   for n in ast.walk(f.node))
                    if assigned:
                        return [(st, T('attr', base, name))]
                return [(st, self.class_attr(a[0], name, a[1]))]
            if self.kind(base) == 'list' and hasattr(list, name):
                return [(st, BoundExt(base, name))]
            if self.missing(ci, base, name):
                return [(st, Exc('AttributeError', self.loc(st, node)))]
            return [(st, T('attr', base, name))]
        v = self.getattr_heap(st, base, name)
        if v is not None:
            return [(st, v)]
        if name in ('real', 'imag') and (is_num(base) or isinstance(base, K) and isinstance(base.v, bool)):
            re, im = reim(base)
            if re is not None:
                return [(st, from_poly(re if name == 'real' else im))]
        if self.kind(base) in ('list', 'dict', 'set', 'tuple') or isinstance(base, K) or isinstance(base, (FnV,)):
            if name == '__class__' and isinstance(base, K):
                return [(st, ExtV('builtins.' + type(base.v).__name__))]
            if name == '__name__' and isinstance(base, FnV):
                return [(st, K(base.fi.name))]
            return [(st, BoundExt(base, name))]
        if name == '__class__':
            return [(st, T('type', base))]
        if isinstance(base, T) and base.op == 'matrix' and name in ('T', 'H', 'shape'):
            if name == 'shape':
                return [(st, tup(K(len(base.args[0])), K(len(base.args[0][0]))))]
            m = tuple(zip(*base.args[0]))
            return [(st, T('matrix', m if name == 'T' else tuple(tuple(conj(x) for x in r) for r in m)))]
        return [(st, T('attr', base, name))]

    def mro_tuple(self, ci):
        out = [ClsV(c) if isinstance(c, ClassInfo) else ExtV(c) for c in self.prog.mro(ci)]
        if ExtV('builtins.object') not in out:
            out.append(ExtV('builtins.object'))
        return tup(*out)

    def missing(self, ci, base, name):
        """An object built by analysed code certainly lacks this attribute."""
        return (self.strict_attrs and isinstance(base, Ref) and not self.prog.has_ext_base(ci) and not name.startswith('__')
                and self.prog.find_method(ci, '__getattr__') is None)

    def class_attr(self, ci, name, expr):
        key = ('cattr', ci.full, name)
        if key not in self.globals:
            s0 = State()
            fi = FuncInfo(ci.module, ast.parse('def f(): pass').body[0], None)
            s0.stack = ((fi, 0),)
            s0.frames[0] = {'$closure': None, '$fi': fi}
            r = self.eval(expr, s0)
            self.globals[key] = r[0][1] if len(r) == 1 and not isinstance(r[0][1], Exc) else T('cattr', ci.full, name)
            self._publish(r[0][0])
        return self.globals[key]

    def mod_attr(self, mod, name, st=None):
        if mod not in self.prog.modules:
            return ExtV(f'{mod}.{name}') if f'{mod}.{name}' not in ('math.pi', 'numpy.pi', 'cmath.pi') else PI
        r = self.prog.lookup(mod, name)
        return self.from_lookup(r, f'{mod}.{name}', st)

    def from_lookup(self, r, dotted, st=None):
        if r is None:
            return ExtV(dotted)
        if r[0] == 'class':
            return ClsV(r[1])
        if r[0] == 'func':
            return FnV(r[1])
        if r[0] == 'module':
            return ModV(r[1]) if r[1] in self.prog.modules else ExtV(r[1])
        if r[0] == 'ext':
            if r[1] in ('math.pi', 'numpy.pi', 'cmath.pi'):
                return PI
            return ExtV(r[1])
        _, mod, stmt, nm = r
        v = self.getattr_heap(st, ModV(mod.name), nm) if st is not None else None
        if v is not None:
            return v
        key = ('global', id(stmt))
        if key not in self.globals:
            self.globals[key] = T('global', f'{mod.name}.{nm}')  # cycle guard
            s0 = State()
            fi = FuncInfo(mod, ast.parse('def f(): pass').body[0], None)
            s0.stack = ((fi, 0),)
            s0.frames[0] = {'$closure': None, '$fi': fi}
            hooks, self.hooks = self.hooks, {k: h for k, h in self.hooks.items() if k.startswith('ext:')}
            try:
                res = self.eval(stmt.value, s0)
            finally:
                self.hooks = hooks
            if len(res) == 1 and not isinstance(res[0][1], Exc):
                self.globals[key] = res[0][1]
                self._publish(res[0][0])
        return self.globals[key]

    def set_attr(self, st, base, name, v, node):
        ci = self.class_of(base)
        if ci is not None:
            m = self.prog.find_setter(ci, name)
            if m is not None:
                return self.call_fn(st, FnV(m, base), [v], {}, node)
        h = self.hooks.get('set:' + name)
        if h is not None:
            r = h(self, st, base, name, v, node)
            if r is not None:
                return r
        old = self.getattr_heap(st, base, name)
        st.attrs[(base, name)] = v
        if self.record_sets:
            self.effect(st, 'setattr', node, target=base, name=name, args=(self.freeze(st, v),), data=(v, old))
        return [(st, NONE)]

    def eq_known(self, st, a, b):
        """True/False when equality is decided, else None."""
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op in ('exctype', 'excval', 'tb') and (isinstance(y, K) or isinstance(y, T) and y.op != x.op):
                return False
        if isinstance(a, K) and isinstance(b, K):
            try:
                return a.v == b.v
            except Exception:
                return None
        if a in self.distinct and b in self.distinct:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == 'enum':
                if isinstance(y, T) and y.op == 'enum':
                    return False
                if isinstance(y, K):
                    return x.args[2] == y if self._intenum(x) else False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ClsV, FnV, Ref)) and isinstance(y, ExtV) and y.name.startswith('builtins.'):
                return False
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.name.startswith('builtins.') and b.name.startswith('builtins.'):
            return False
        if isinstance(a, (ClsV, FnV, ModV)) and isinstance(b, (ClsV, FnV, ModV, K)) or \
           isinstance(b, (ClsV, FnV, ModV)) and isinstance(a, K):
            return False
        if is_tuple(a) and is_tuple(b):
            if len(a.args) != len(b.args):
                return False
            if self.has_eq(a) or self.has_eq(b):
                f, pol = self.norm_fact(st, T('cmp', '==', a, b))
                if f in st.facts:
                    return st.facts[f] == pol
            rs = [self.eq_known(st, x, y) for x, y in zip(a.args, b.args)]
            if False in rs:
                return False
            return True if all(rs) else None
        if (is_tuple(a) or is_tuple(b)) and (isinstance(a, K) or isinstance(b, K)):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            ka, kb = self.kind(a), self.kind(b)
            if ka in ('list', 'set') and kb == ka:
                ia, ib = self.items(st, a), self.items(st, b)
                if ia is not None and ib is not None and ka == 'list':
                    if len(ia) != len(ib):
                        return False
                    rs = [self.eq_known(st, x, y) for x, y in zip(ia, ib)]
                    if False in rs:
                        return False
                    return True if all(rs) else None
                if ka == 'set' and ia is not None and ib is not None and all(ground(x) for x in ia + ib):
                    return set(ia) == set(ib)
                return True if self.segs(st, a) == self.segs(st, b) else None
            if ka != kb:
                return False
            ca, cb = self.cls_of.get(a.oid), self.cls_of.get(b.oid)
            if ca is not None and cb is not None and not self.prog.is_sub(ca, cb) and not self.prog.is_sub(cb, ca):
                return False
            if ca is not None and cb is not None and ka is None and not self.prog.find_method(ca, '__eq__') and not self.prog.find_method(cb, '__eq__') \
                    and not any(self.prog.has_ext_base(c) for c in (ca, cb)):
                return False
        if isinstance(a, Ref) and isinstance(b, K) or isinstance(b, Ref) and isinstance(a, K):
            r = a if isinstance(a, Ref) else b
            if self.kind(r) or b == NONE or a == NONE:
                return False
        if is_num(a) and is_num(b) or (is_num(a) or is_num(b)) and isinstance(a, (T, K)) and isinstance(b, (T, K)):
            if a == NONE or b == NONE:
                return False
            d = psub(to_poly(a), to_poly(b))
            if not d:
                return True
            if len(d) == 1 and () in d:
                return False
            r = self.cmp_range(st, '==', d)
            if r is not None:
                return r
        f, pol = self.norm_fact(st, T('cmp', '==', a, b))
        v = st.facts.get(f)
        if v is None:
            return None
        return v == pol

    def _intenum(self, x):
        ci = self.class_of(x)
        return ci is not None and any(b.endswith('IntEnum') for b in self.prog.has_ext_base(ci))

    def in_term(self, st, x, c):
        """Boolean value/term of `x in c`."""
        ks = st.dkeys.get(c, self.g_dkeys.get(c))
        if ks is not None:
            rs = [self.eq_known(st, k, x) for k in ks]
            if True in rs:
                return TRUE
            if all(r is False for r in rs):
                return FALSE
            return T('or', *[self.eq_term(st, k, x) for k, r in zip(ks, rs) if r is None])
        if isinstance(c, K) and isinstance(c.v, str):
            if isinstance(x, K):
                return K(x.v in c.v)
            return T('in', x, c)
        if isinstance(c, T) and c.op == 'range':
            a, b, s = c.args
            if const_of(s) == 1:
                return T('and', T('cmp', '<=', a, x), T('cmp', '<', x, b))
        if isinstance(c, T) and c.op in ('keys',):
            return self.in_term(st, x, c.args[0])
        segs = self.segs(st, c)
        ors = []
        for s in segs:
            if s[0] == 'item':
                r = self.eq_known(st, s[1], x)
                if r is True:
                    return TRUE
                if r is None:
                    ors.append(self.eq_term(st, s[1], x))
            elif s[0] == 'splat':
                base = s[1]
                # membership in an open dictionary that was written to
                for k in st.ditems.keys_of(base):
                    r = self.eq_known(st, k, x)
                    if r is True and st.ditems[(base, k)] is not None:
                        return TRUE
                    if r is True:
                        return FALSE
                f = T('in', x, base)
                if st.facts.get(f) is True:
                    return TRUE
                if isinstance(x, T) and x.op == 'elem' and x.args[0] == base:
                    return TRUE
                ors.append(f)
            else:
                ors.append(T('in', x, T('each', s[1], tuple((cc, tuple(self._fseg(st, y, 3) for y in g)) for cc, g in s[2]))))
        if not ors:
            return FALSE
        return ors[0] if len(ors) == 1 else T('or', *ors)

    def subscript(self, st, base, idx, node):
        ci = self.class_of(base)
        if ci is not None:
            m = self.prog.find_method(ci, '__getitem__')
            if m is not None:
                return self.call_fn(st, FnV(m, base), [idx], {}, node)
        return self._subscript(st, base, idx, node)

    def _subscript(self, st, base, idx, node):
        if isinstance(base, T) and base.op == 'matrix':
            i = [const_of(x) for x in (idx.args if is_tuple(idx) else (idx,))]
            if None not in i:
                if len(i) == 2:
                    return [(st, base.args[0][int(i[0])][int(i[1])])]
                return [(st, tup(*base.args[0][int(i[0])]))]
        if isinstance(base, K) and isinstance(base.v, str):
            c = const_of(idx) if not isinstance(idx, T) or is_num(idx) else None
            if c is not None and not (isinstance(idx, T) and idx.op == 'slice'):
                try:
                    return [(st, K(base.v[int(c)]))]
                except IndexError:
                    return [(st, Exc('IndexError', self.loc(st, node)))]
            if isinstance(idx, T) and idx.op == 'slice' and all(isinstance(x, K) for x in idx.args):
                return [(st, K(base.v[slice(*[x.v for x in idx.args])]))]
        if self.kind(base) == 'dict' or st.ditems.keys_of(base):
            return self.dict_get(st, base, idx, node)
        if isinstance(idx, T) and idx.op == 'slice':
            return [(st, self.slice(st, base, idx))]
        segs = self.segs(st, base)
        c = const_of(idx) if is_num(idx) or isinstance(idx, K) and isinstance(idx.v, int) else None
        if c is not None and not (len(segs) == 1 and segs[0][0] == 'splat'):
            c = int(c)
            if all(s[0] == 'item' for s in segs):
                if -len(segs) <= c < len(segs):
                    return [(st, segs[c][1])]
                return [(st, Exc('IndexError', self.loc(st, node)))]
            pre = segs[: c + 1] if c >= 0 else segs[c:]
            if all(s[0] == 'item' for s in pre) and len(pre) == (c + 1 if c >= 0 else -c):
                return [(st, pre[-1][1] if c >= 0 else pre[0][1])]
        if len(segs) == 1 and segs[0][0] == 'splat':
            b = segs[0][1]
            if isinstance(idx, T) and idx.op == 'idx' and idx.args[0] == b:
                return [(st, T('elem', b))]
            if isinstance(b, T) and b.op == 'range' and const_of(b.args[2]) == 1 and c is not None and c >= 0:
                return [(st, self.arith('+', b.args[0], idx))]
            # a negative constant index relative to the length
            return [(st, T('sub', b, self.norm_idx(st, b, idx)))]
        if len(segs) == 1 and segs[0][0] == 'each' and isinstance(idx, T) and idx.op == 'idx' and idx.args[0] == segs[0][1]:
            br = segs[0][2]
            if len(br) == 1 and not br[0][0] and len(br[0][1]) == 1 and br[0][1][0][0] == 'item':
                return [(st, br[0][1][0][1])]
        it = self.items(st, base)
        if it is not None and it and is_num(idx) and len(it) <= 4:
            # unknown index into a known list: split
            outs, work = [], [(st, 0)]
            while work:
                s, i = work.pop()
                if i == len(it) - 1:
                    outs.append((s, it[i]))
                    continue
                for s2, b in self.truth(T('cmp', '==', idx, K(i)), s):
                    if b:
                        outs.append((s2, it[i]))
                    else:
                        work.append((s2, i + 1))
            return outs
        return [(st, T('sub', self.freeze(st, base), idx))]

    def norm_idx(self, st, b, idx):
        if isinstance(idx, T) and is_num(idx):
            n = self.length(st, b)
            p = psub(to_poly(idx), to_poly(n))
            if len(p) == 1 and () in p and p[()] < 0:
                return K(int(p[()]))
        return idx

    def slice(self, st, base, idx):
        lo, hi, step = idx.args
        segs = self.segs(st, base)
        if all(s[0] == 'item' for s in segs) and all(x == NONE or const_of(x) is not None for x in idx.args):
            sl = slice(*[None if x == NONE else int(const_of(x)) for x in idx.args])
            vals = [s[1] for s in segs][sl]
            if is_tuple(base):
                return tup(*vals)
            return self.new_list(st, [('item', x) for x in vals])
        if step in (NONE, K(1)):
            if lo in (NONE, K(0)) and hi == NONE:
                return self.new_list(st, segs)
            if lo in (NONE, K(0)) and hi == self.length(st, base):
                return self.new_list(st, segs)
            n = const_of(lo) if lo != NONE else Fraction(0)
            if hi == NONE and n is not None and n > 0 and all(s[0] == 'item' for s in segs[: int(n)]) and len(segs) >= n:
                return self.new_list(st, segs[int(n):])
            m = const_of(hi) if hi != NONE else None
            if n == 0 and m is not None and m < 0 and len(segs) >= -m and all(s[0] == 'item' for s in segs[int(m):]):
                return self.new_list(st, segs[: int(m)])
            if n is not None and m is not None and 0 <= n <= m and len(segs) >= m and all(s[0] == 'item' for s in segs[: int(m)]):
                return self.new_list(st, segs[int(n): int(m)])
        elif step == K(-1) and lo == NONE and hi == NONE:
            if len(segs) == 1 and segs[0][0] == 'splat':
                return T('reversed', segs[0][1])
            return T('reversed', self.freeze(st, base))
        b = segs[0][1] if len(segs) == 1 and segs[0][0] == 'splat' else self.freeze(st, base)
        return T('slice_of', b, lo if lo != NONE else K(0), hi, step if step != NONE else K(1))

    def dict_get(self, st, d, k, node):
        if self.has_eq(k):
            outs = []
            for s, k2 in self.canon_key(st, d, k, node):
                outs += [(s, k2)] if isinstance(k2, Exc) else self._dict_get(s, d, k2, node)
            return outs
        return self._dict_get(st, d, k, node)

    def _dict_get(self, st, d, k, node):
        outs = []
        cand = st.ditems.keys_of(d) + self.g_ditems.keys_of(d)
        cand = list(dict.fromkeys(cand))
        work = [(st, cand)]
        keys = st.dkeys.get(d, self.g_dkeys.get(d))
        if k in cand:
            v = self.ditem(st, d, k)
            if v is None:
                return [(st, Exc('KeyError', self.loc(st, node)))]
            return [(st, v)]
        while work:
            s, ks = work.pop()
            if not ks:
                if keys is not None:
                    outs.append((s, Exc('KeyError', self.loc(st, node))))
                elif isinstance(k, T) and k.op == 'elem' and k.args[0] in (d, T('keys', d)):
                    outs.append((s, T('elem', T('values', d))))
                else:
                    outs.append((s, T('sub', d, k)))
                continue
            kk = ks[0]
            r = self.eq_known(s, kk, k)
            if r is False:
                work.append((s, ks[1:]))
                continue
            for s2, b in ([(s, True)] if r else self.truth(self.eq_term(s, kk, k), s)):
                if b:
                    v = self.ditem(s2, d, kk)
                    outs.append((s2, v if v is not None else Exc('KeyError', self.loc(st, node))))
                else:
                    work.append((s2, ks[1:]))
        return outs

    def set_item(self, st, base, idx, v, node):
        ci = self.class_of(base)
        if ci is not None:
            m = self.prog.find_method(ci, '__setitem__')
            if m is not None:
                return self.call_fn(st, FnV(m, base), [idx, v], {}, node)
        if self.kind(base) == 'dict' and self.has_eq(idx):
            outs = []
            for s, k2 in self.canon_key(st, base, idx, node):
                outs += [(s, k2)] if isinstance(k2, Exc) else self._set_item(s, base, k2, v, node)
            return outs
        return self._set_item(st, base, idx, v, node)

    def _set_item(self, st, base, idx, v, node):
        segs = st.lists.get(base)
        if segs is not None and self.kind(base) != 'dict':
            c = const_of(idx) if isinstance(idx, K) or is_num(idx) else None
            if isinstance(idx, T) and idx.op == 'slice' and idx.args[0] in (NONE, K(0)) and idx.args[1] == NONE:
                st.lists[base] = self.segs(st, v)
            elif isinstance(idx, T) and idx.op == 'slice' and all(s[0] == 'item' for s in segs) and all(x == NONE or const_of(x) is not None for x in idx.args) \
                    and self.items(st, v) is not None:
                n = list(segs)
                try:
                    n[slice(*[None if x == NONE else int(const_of(x)) for x in idx.args])] = [('item', x) for x in self.items(st, v)]
                except ValueError:
                    return [(st, Exc('ValueError', self.loc(st, node)))]
                st.lists[base] = tuple(n)
            elif c is not None and all(s[0] == 'item' for s in segs) and -len(segs) <= c < len(segs):
                n = list(segs)
                n[int(c)] = ('item', v)
                st.lists[base] = tuple(n)
            elif c is not None and c < 0 and len(segs) >= -c and all(s[0] == 'item' for s in segs[int(c):]):
                n = list(segs)
                n[int(c)] = ('item', v)
                st.lists[base] = tuple(n)
            else:
                st.lists[base] = (('splat', T('updated', self.freeze(st, base), idx, self.freeze(st, v))),)
            if self.record_sets:
                self.effect(st, 'setitem', node, target=base, args=(idx, self.freeze(st, v)), data=v)
            return [(st, NONE)]
        ks = st.dkeys.get(base, self.g_dkeys.get(base))
        key = idx
        if ks is not None or self.kind(base) == 'dict' or True:
            if ks is not None:
                if base not in st.dkeys:
                    st.dkeys[base] = ks
                hit = None
                for k in ks:
                    if self.eq_known(st, k, idx) is True:
                        hit = k
                if hit is not None:
                    key = hit
                else:
                    st.dkeys[base] = ks + (idx,)
            else:
                for k in st.ditems.keys_of(base):
                    if self.eq_known(st, k, idx) is True:
                        key = k
            st.ditems[(base, key)] = v
        if self.record_sets:
            self.effect(st, 'setitem', node, target=base, args=(idx, self.freeze(st, v)), data=v)
        return [(st, NONE)]

    def del_item(self, st, base, idx, node):
        self.effect(st, 'delitem', node, target=base, args=(idx,))
        segs = st.lists.get(base)
        if segs is not None:
            c = const_of(idx) if isinstance(idx, K) or is_num(idx) else None
            if isinstance(idx, T) and idx.op == 'slice':
                lo, hi, step = idx.args
                if lo in (NONE, K(0)) and hi == NONE:
                    st.lists[base] = ()
                    return
                n = const_of(lo) if lo != NONE else Fraction(0)
                m = const_of(hi) if hi != NONE else None
                if all(s[0] == 'item' for s in segs) and n is not None and (m is not None or hi == NONE):
                    x = list(segs)
                    del x[slice(int(n), None if m is None else int(m))]
                    st.lists[base] = tuple(x)
                    return
            elif c is not None and all(s[0] == 'item' for s in segs) and -len(segs) <= c < len(segs):
                x = list(segs)
                del x[int(c)]
                st.lists[base] = tuple(x)
                return
            elif c is not None and c < 0 and len(segs) >= -c and all(s[0] == 'item' for s in segs[int(c):]):
                x = list(segs)
                del x[int(c)]
                st.lists[base] = tuple(x)
                return
            st.lists[base] = (('splat', T('deleted', self.freeze(st, base), idx)),)
            return
        ks = st.dkeys.get(base, self.g_dkeys.get(base))
        if ks is not None:
            st.dkeys[base] = tuple(k for k in ks if self.eq_known(st, k, idx) is not True)
            for k in ks:
                if self.eq_known(st, k, idx) is True:
                    st.ditems.pop((base, k), None)
            return
        if self.kind(base) is None and isinstance(idx, T) and idx.op == 'slice':
            st.lists[base] = (('splat', T('deleted', base, idx)),) if idx.args[1] != NONE or idx.args[0] not in (NONE, K(0)) else ()
            return
        st.ditems[(base, idx)] = None
        st.facts.pop(T('in', idx, base), None)
        st.facts[T('in', idx, base)] = False

    # ------------------------------------------------------------------ conditions
    def eq_term(self, st, a, b):
        r = self.eq_known(st, a, b)
        if r is not None:
            return K(r)
        return T('cmp', '==', a, b)

    def truth_term(self, st, v):
        """True/False if decided without a split, else None."""
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, (ClsV, FnV, ModV)):
            return True
        if isinstance(v, Ref):
            k = self.kind(v)
            if k and self.class_of(v) is not None and self.prog.find_method(self.class_of(v), '__bool__'):
                return None
            if k:
                s = self.segs(st, v)
                if not s:
                    return False
                if any(x[0] == 'item' for x in s):
                    return True
                return None
            ci = self.class_of(v)
            if ci is not None and not self.prog.find_method(ci, '__bool__') and not self.prog.find_method(ci, '__len__'):
                return True
            return None
        if is_tuple(v):
            return bool(v.args)
        f, pol = self.norm_fact(st, v)
        if isinstance(f, bool):
            return f == pol
        x = st.facts.get(f)
        return None if x is None else x == pol

    def norm_fact(self, st, v):
        """(canonical fact term, polarity) of a boolean value."""
        pol = True
        while isinstance(v, T) and v.op == 'not':
            pol, v = not pol, v.args[0]
        if isinstance(v, T) and v.op == 'cmp':
            op, a, b = v.args
            if op == '!=':
                pol, op = not pol, '=='
            elif op == 'is not':
                pol, op = not pol, 'is'
            elif op == '>':
                op, a, b = '<', b, a
            elif op == '>=':
                pol, op = not pol, '<'
            elif op == '<=':
                pol, op, a, b = not pol, '<', b, a
            if op in ('==', 'is') and repr(b) < repr(a):
                a, b = b, a
            if op == 'is':
                op = '=='
            return T('cmp', op, a, b), pol
        if isinstance(v, T) and v.op in ('isinst', 'in', 'any', 'and', 'or', 'truthy', 'allclose', 'hasattr', 'callable'):
            return v, pol
        if isinstance(v, K):
            return bool(v.v), pol
        return T('truthy', v), pol

    def cmp_range(self, st, op, d):
        """Decide sum(d) op 0 from intervals; None if unknown."""
        c = d.get((), Fraction(0))
        rest = {m: k for m, k in d.items() if m}
        if not rest:
            return {'==': c == 0, '<': c < 0}[op]
        x = polyval(d)
        if x is not None:
            # constants built from pi and square roots: numerically decided (below 1e-9 counts as equal)
            return {'==': abs(x) < 1e-13, '<': x < -1e-13}[op]
        lo = hi = c
        lead = from_poly(rest)
        neg = from_poly(pscale(rest, Fraction(-1)))
        if lead in st.ranges or neg in st.ranges:
            if lead in st.ranges:
                l, h = st.ranges[lead]
            else:
                h, l = (-x for x in st.ranges[neg])
            lo, hi = c + l, c + h
        else:
            for m, k in rest.items():
                if len(m) == 1 and m[0][1] == 1:
                    l, h = _bounds(st, m[0][0])
                else:
                    l, h = (0, INF) if all(is_len(x) for x, _ in m) else (-INF, INF)
                l, h = (k * l if l not in (INF, -INF) else l * (1 if k > 0 else -1)), (k * h if h not in (INF, -INF) else h * (1 if k > 0 else -1))
                if k < 0:
                    l, h = h, l
                lo, hi = lo + l, hi + h
        if op == '==':
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            return None
        if hi < 0:
            return True
        if lo >= 0:
            return False
        return None

    def integral(self, d):
        return all(c.denominator == 1 and all(is_len(x) or isinstance(x, T) and (x.op in ('floordiv', 'mod', 'idx', 'int', 'sub', 'attr', 'sym', 'elem', 'range_elem', 'call'))
                                             for x, _ in m) for m, c in d.items())

    def narrow(self, st, op, d, val):
        """Record d op 0 == val in the intervals. False if contradictory."""
        c = d.get((), Fraction(0))
        rest = {m: k for m, k in d.items() if m}
        t, sign = from_poly(rest), 1
        if len(rest) == 1 or repr(from_poly(pscale(rest, Fraction(-1)))) < repr(t):
            (m, k) = next(iter(rest.items()))
            if len(rest) == 1:
                # scale to coefficient 1
                c = c / abs(k)
                sign = 1 if k > 0 else -1
                t = from_poly({m: Fraction(1)})
            else:
                t, sign = from_poly(pscale(rest, Fraction(-1))), -1
        lo, hi = st.ranges.get(t, (0, INF) if is_len(t) else (-INF, INF))
        eps = 1 if self.integral(rest) else 0
        # sign*t + c op 0
        if op == '==':
            x = -c * sign
            if val:
                if x < lo or x > hi:
                    return False
                lo = hi = x
            else:
                if eps:
                    if lo == x:
                        lo = lo + 1
                    if hi == x:
                        hi = hi - 1
        else:  # <
            if val == (sign > 0):
                # t < -c*sign  (sign>0, val)   or  (sign<0, not val): -t + c >= 0 -> t <= c
                b = -c * sign
                if val:
                    b = b - eps if eps else b
                hi = min(hi, b)
            else:
                b = -c * sign
                if val:  # sign<0: -t + c < 0 -> t > c
                    b = b + eps if eps else b
                lo = max(lo, b)
        if lo > hi:
            return False
        st.ranges[t] = (lo, hi)
        return True

    def split(self, st, f):
        """Split on a canonical fact."""
        x = st.facts.get(f)
        if x is not None:
            return [(st, x)]
        if self.truth_hook is not None:
            r = self.truth_hook(self, st, f)
            if r is not None:
                return [(st, r)]
        if SPLITS:
            print('split', f, st.stack[-1][0] if st.stack else '')
        s2 = st.fork()
        st.facts[f] = True
        s2.facts[f] = False
        return [(st, True), (s2, False)]

    def truth(self, v, st):
        self.tick()
        t = self.truth_term(st, v) if not isinstance(v, T) else None
        if t is not None:
            return [(st, t)]
        if isinstance(v, Ref):
            ci = self.class_of(v)
            if ci is not None and (self.kind(v) is None or self.prog.find_method(ci, '__bool__')):
                m = self.prog.find_method(ci, '__bool__') or self.prog.find_method(ci, '__len__')
                outs = []
                for s, r in self.call_fn(st, FnV(m, v), [], {}, m.node):
                    outs += [(s, r)] if isinstance(r, Exc) else self.truth(r, s)
                return outs
            return self.truth(T('cmp', '<', K(0), self.length(st, v)), st)
        if isinstance(v, T):
            if v.op == 'not':
                return [(s, (not b) if isinstance(b, bool) else b) for s, b in self.truth(v.args[0], st)]
            if v.op in ('and', 'or'):
                outs, work = [], [(st, 0)]
                stop = v.op == 'or'
                while work:
                    s, i = work.pop()
                    if i == len(v.args):
                        outs.append((s, not stop))
                        continue
                    for s2, b in self.truth(v.args[i], s):
                        if b == stop:
                            outs.append((s2, stop))
                        else:
                            work.append((s2, i + 1))
                return outs
            if is_tuple(v):
                return [(st, bool(v.args))]
            if v.op == 'cmp':
                f, pol = self.norm_fact(st, v)
                op, a, b = f.args
                if op == '==':
                    r = self.eq_known(st, a, b)
                    if r is not None:
                        return [(st, r == pol)]
                num = (is_num(a) or is_num(b)) and not any(isinstance(x, K) and not isinstance(x.v, (int, float, complex)) for x in (a, b))
                if num or op == '<':
                    d = psub(to_poly(a), to_poly(b))
                    if all(not isinstance(x, K) for m in d for x, _ in m):
                        r = self.cmp_range(st, op, d)
                        if r is None:
                            r = st.facts.get(f)
                        if r is not None:
                            return [(st, r == pol)]
                        if self.truth_hook is not None:
                            r = self.truth_hook(self, st, f)
                            if r is not None:
                                return [(st, r == pol)]
                        s2 = st.fork()
                        outs = []
                        for s, val in ((st, True), (s2, False)):
                            if self.narrow(s, op, d, val):
                                s.facts[f] = val
                                outs.append((s, val == pol))
                        return outs
                return [(s, b == pol) for s, b in self.split(st, f)]
            if v.op == 'isinst':
                r = self.isinst(st, *v.args)
                if isinstance(r, K):
                    return [(st, r.v)]
                r = self.isinst_facts(st, *v.args)
                if r is not None:
                    return [(st, r)]
                return self.split(st, v)
            if v.op == 'in':
                r = self.in_term(st, *v.args) if not (isinstance(v.args[1], T) and v.args[1].op == 'each') else v
                if isinstance(r, K):
                    return [(st, bool(r.v))]
                if r != v:
                    return self.truth(r, st)
                return self.split(st, v)
            if v.op == 'ite':
                outs = []
                for s, b in self.truth(v.args[0], st):
                    outs += self.truth(v.args[1] if b else v.args[2], s)
                return outs
            if is_num(v):
                return [(s, not b) for s, b in self.truth(T('cmp', '==', v, K(0)), st)]
            if v.op in ('any', 'allclose', 'hasattr', 'callable'):
                return self.split(st, v)
            if v.op in ('list', 'setv', 'dict'):
                return [(st, bool(v.args))]
            ci = self.class_of(v)
            if ci is not None:
                m = self.prog.find_method(ci, '__bool__')
                if m is not None:
                    outs = []
                    for s, r in self.call_fn(st, FnV(m, v), [], {}, m.node):
                        outs += [(s, r)] if isinstance(r, Exc) else self.truth(r, s)
                    return outs
            # truthiness of a collection and its length are the same thing
            if v in st.lists or T('len', v) in st.ranges or v.op in ('rest', 'without', 'deleted', 'slice_of', 'keys', 'items', 'values', 'reversed', 'sorted'):
                return self.truth(T('cmp', '<', K(0), self.length(st, v)), st)
            key = T('truthy', v)
            if key in st.facts:
                return [(st, st.facts[key])]
            outs = self.split(st, key)
            for s, b in outs:
                if b:
                    s.ranges.setdefault(T('len', v), (1, INF))
                else:
                    s.ranges.setdefault(T('len', v), (0, 0))
            return outs
        if isinstance(v, BoundExt) or isinstance(v, ExtV):
            return [(st, True)]
        return self.split(st, T('truthy', v))

    def isinst_facts(self, st, x, c):
        if not isinstance(c, ClsV):
            return None
        for f, b in st.facts.items():
            if isinstance(f, T) and f.op == 'isinst' and f.args[0] == x and isinstance(f.args[1], ClsV):
                o = f.args[1].ci
                if b and self.prog.is_sub(o, c.ci):
                    return True
                if not b and self.prog.is_sub(c.ci, o):
                    return False
                if b and not self.prog.is_sub(c.ci, o):
                    if not any(self.prog.is_sub(k, o) and self.prog.is_sub(k, c.ci) for k in self.prog.all_classes()):
                        return False
        return None
