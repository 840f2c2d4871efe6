"""Most-general-client harness: a small client program, written as Python text, is added to the program model and analysed
together with the library by the abstract interpreter; what reaches the end of the engine chain is compared."""
import ast
import os

from .core import State
from .model import Module
from .scen import Scen, flat
from .values import BoundExt, Exc, ExtV, FnV, K, NONE, Ref, T, from_poly, padd, pmul, polyval, to_poly, walk

PRELUDE = '''
from projectq.cengines import *
from projectq.meta import *
from projectq.ops import *
from projectq.types import *
from projectq.cengines import BasicEngine, MainEngine


class Recorder(BasicEngine):
    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        pass


class LoopRecorder(Recorder):
    def is_meta_tag_handler(self, tag):
        return tag == LoopTag


class DirtyRecorder(Recorder):
    def is_meta_tag_handler(self, tag):
        return tag == DirtyQubitTag


class UserGate(BasicGate):
    """A gate the library has never seen."""

    def __init__(self, num=0):
        super().__init__()
        self.num = num

    def __eq__(self, other):
        return isinstance(other, UserGate) and self.num == other.num

    def __hash__(self):
        return hash(str(self.num))

    def get_inverse(self):
        return UserGate(-self.num)

    def is_identity(self):
        return self.num == 0


class Failing(BasicEngine):
    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        raise KeyError('engine fails')


def probe(*args):
    pass


def main_engine(backend=None, engines=None):
    return MainEngine(backend=Recorder() if backend is None else backend, engine_list=[] if engines is None else engines, verbose=True)


'''
_n = 0


def _matmul(I, a, b):
    flat_b = not isinstance(b[0], list)
    flat_a = not isinstance(a[0], list)
    rows = [a] if flat_a else a
    cols = [b] if flat_b else list(zip(*b))

    def dot(x, y):
        if len(x) != len(y):
            raise ValueError
        r = {}
        for p, q in zip(x, y):
            if p != K(0) and q != K(0):
                r = padd(r, pmul(to_poly(p), to_poly(q)))
        return from_poly(r)
    out = [[dot(r, c) for c in cols] for r in rows]
    if flat_b:
        out = [r[0] for r in out]
        return out[0] if flat_a else out
    return out[0] if flat_a else out


def _kron(I, a, b):
    if not isinstance(a[0], list):
        return [I.arith('*', x, y) for x in a for y in b]
    return [[I.arith('*', x, y) for x in r for y in q] for r in a for q in b]


def _native(fn):
    """An operation on nested lists of numbers computed directly."""
    def hook(I, st, fv, args, kw, node):
        def dec(v):
            it = I.items(st, v) if I.kind(v) in ('list', 'tuple') or not isinstance(v, K) else None
            return v if it is None else [dec(x) for x in it]

        def enc(v):
            return I.new_list(st, [('item', enc(x)) for x in v]) if isinstance(v, list) else v
        try:
            r = fn(I, *[dec(a) for a in args])
        except ValueError:
            return [(st, Exc('ValueError', I.loc(st, node)))]
        return [(st, enc(r))]
    return hook


def _native_sqrt(I, st, fv, args, kw, node):
    x = polyval(to_poly(args[0]))
    if x is None or isinstance(x, complex) or x < 0:
        return [(st, I.arith('**', args[0], K(0.5)))]
    r = x ** 0.5
    return [(st, K(int(r)) if r == int(r) and r * r == x else K(r))]


class Client:
    observer = None

    def __init__(self, prog, src, prelude=PRELUDE, **opt):
        global _n
        _n += 1
        self.prog = prog
        name = f'pqsa_client_{_n}'
        text = prelude + src
        mod = Module(prog, name, '<client>', f'client{_n}', ast.parse(text), False)
        prog.modules[name] = mod
        prog._bind_body(mod, mod.tree.body)
        self.mod = mod
        self.stubs = tuple(opt.pop('stubs', ()))
        for s in self.stubs:
            s, _, file = s.partition('=')
            with open(os.path.join(os.path.dirname(__file__), 'stubs', (file or s) + '.py'), encoding='utf-8') as fh:
                prog.add_module(s, fh.read(), pkg=True)
        prints = opt.pop('prints', False)
        opt.setdefault('contexts', ())
        opt.setdefault('inline_or', True)
        opt.setdefault('max_depth', 120)
        opt.setdefault('recursion', 30)
        opt.setdefault('unroll', 200)
        opt.setdefault('strict_attrs', True)
        self.S = Scen(prog, **opt)
        self.I = self.S.I
        self.I.hooks['Recorder.receive'] = self._receive
        self.I.hooks['probe'] = self._probe
        self.I.hooks['native_matmul'] = _native(_matmul)
        self.I.hooks['native_kron'] = _native(_kron)
        self.I.hooks['native_sqrt'] = _native_sqrt
        for pre in ('', 'builtins.'):
            if 'typed_input' in mod.funcs:
                self.I.hooks[f'ext:{pre}input'] = self._input
            if prints:
                self.I.hooks[f'ext:{pre}print'] = self._print

    def close(self):
        for s in self.stubs:
            self.prog.modules.pop(s.partition('=')[0], None)
        self.prog.modules.pop(self.mod.name, None)

    def _receive(self, I, st, fv, args, kw, node):
        lst = args[-1] if args else kw.get('command_list')
        items = I.items(st, lst)
        cmds = None if items is None else [(c, self.S.parts(st, c)) for c in items]
        I.effect(st, 'send', node, target=fv.selfv, args=(), data=cmds)
        return [(st, NONE)]

    def _probe(self, I, st, fv, args, kw, node):
        I.effect(st, 'probe', node, args=tuple(args), data=tuple(self.show(st, a) for a in args))
        return [(st, NONE)]

    def _input(self, I, st, name, args, kw, node):
        f = self.mod.funcs['typed_input']
        return I.call_fn(st, FnV(f), list(args), {}, node, force=True)

    def _print(self, I, st, name, args, kw, node):
        I.effect(st, 'probe', node, args=tuple(a for a in args if not isinstance(a, tuple)),
                 data=(K('print'),) + tuple(I.freeze(st, a) if not isinstance(a, tuple) else T('star', I.freeze(st, a[1])) for a in args))
        return [(st, NONE)]

    def show(self, st, v):
        if isinstance(v, Ref):
            ci = self.I.class_of(v)
            if ci is not None and ci.name == 'Command':
                return self.S.parts(st, v)
            it = self.I.items(st, v)
            if it is not None:
                return ('list',) + tuple(self.show(st, x) for x in it)
            return v
        return v

    def gate(self, sig):
        """Readable form of a gate description: class name and public attributes."""
        if isinstance(sig, tuple) and len(sig) == 2 and isinstance(sig[0], str) and isinstance(sig[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in sig[1]):
            at = [f'{n}={self.gate(v)}' for n, v in sig[1] if not n.startswith('_') and n not in ('interchangeable_qubit_indices', 'matrix')]
            return sig[0] + (f'({", ".join(at)})' if at else '')
        return str(sig)

    def short(self, p):
        """Readable form of a command: gate, targets, controls with their states, tags."""
        if p is None:
            return '?'
        g, regs, ids, st, tags = p
        out = self.gate(g).replace('AllocateQubitGate', 'Allocate').replace('DeAllocate', 'Deallocate').replace('DeallocateQubitGate', 'Deallocate')
        out += ' ' + ('?' if regs is None else '|'.join(','.join(map(str, r)) if r is not None else '?' for r in regs))
        if ids is None or not isinstance(st, K) or len(st.v) != len(ids):
            out += f' ctrl {ids} {st}'
        elif ids:
            out += ' ctrl ' + ','.join(f'{i}={b}' for i, b in sorted(zip(map(str, ids), st.v)))
        if tags is None:
            out += ' tags ?'
        elif tags:
            out += ' tags ' + ','.join(self.gate(t) for t in tags)
        return out

    def lines(self, st, val=None, what=('send', 'probe')):
        """The observable trace of a path as text lines."""
        tr = trace(st)
        if tr is None:
            return None
        out = []
        for x in tr:
            if x[0] == 'send' and 'send' in what:
                out.append(self.short(x[1]))
            elif x[0] == 'probe' and 'probe' in what:
                out.append('probe ' + ' '.join(self.pshow(a) for a in x[1]))
        if isinstance(val, Exc):
            out.append(f'raise {val.name}')
        return out

    def pshow(self, a):
        if isinstance(a, tuple) and len(a) == 5 and (a[1] is None or isinstance(a[1], (tuple, list))):
            return self.short(a)
        if isinstance(a, tuple) and a and a[0] == 'list':
            return '[' + ', '.join(self.pshow(x) for x in a[1:]) + ']'
        if isinstance(a, Ref):
            ci = self.I.class_of(a)
            return ci.name if ci is not None else str(self.I.kind(a))
        return str(a)

    def run(self, fn, *args, st=None):
        f = self.mod.funcs[fn]
        st = (st or self.S.st).fork()
        st.eff = []
        fv = FnV(f)
        st.stack = ((f, -1),)
        st.frames[-1] = {'$closure': None, '$fi': f}
        outs = self.I.call_fn(st, fv, list(args), {}, f.node, force=True)
        if Client.observer is not None:
            Client.observer(self, outs)
        return outs


def trace(st):
    """Sent commands and probes in order; None if some send is inside an unbounded loop or unknown."""
    out = []
    for e in st.eff:
        if e.kind == 'loop' and any(x.kind in ('send', 'probe') for p in e.data for x in flat(p.effects)):
            return None
        if e.kind == 'send':
            if e.data is None:
                return None
            out += [('send', p, c, e) for c, p in e.data]
        elif e.kind == 'probe':
            out.append(('probe', e.data, e.args, e))
    return out


def expect(chk, rule, inst, src, want, construct, loc, fn='client', args=(), what=('send', 'probe'), prelude=PRELUDE, **opt):
    """Analyse a client program; every path has to show one of the wanted traces. want: list of lines or list of such lists, or a
    function of the lines returning an error text or None."""
    if not chk.mine():
        return
    with chk.guard(rule, inst):
        C = Client(chk.prog, src, prelude=prelude, **opt)
        try:
            outs = C.run(fn, *args)
            chk.saw(C.I, outs)
            alts = want if callable(want) or (want and isinstance(want[0], (list, tuple))) else [list(want)]
            for st, v in outs:
                got = C.lines(st, v, what)
                if got is None:
                    chk.unknown(rule, inst, 'commands are sent in a loop of unknown length or are unknown')
                    return
                msg = alts(got) if callable(alts) else None if got in [list(a) for a in alts] else diff(got, alts[0])
                if msg:
                    where = next((x[3].loc for x in reversed(trace(st)) if x[0] == 'send' and not x[3].loc.startswith('<client>')), loc)
                    if isinstance(v, Exc) and v.loc and not str(v.loc).startswith('<client>'):
                        where = v.loc
                    if any(x in '\n'.join(got) for x in ('?',)):
                        chk.unknown(rule, inst, f'unknown value: {msg}')
                        return
                    if st.facts:
                        conds = ', '.join(f'{f!r}={b}' for f, b in list(st.facts.items())[:4])
                        msg += f' (when {conds})'
                        if not all(clean(f) for f in st.facts) and any(C.lines(s2, v2, what) != got for s2, v2 in outs):
                            chk.unknown(rule, inst, f'depends on an unknown condition: {msg}')
                            return
                    chk.fail(rule, construct, where, f'{inst}: {msg}')
                    return
            if not outs:
                chk.unknown(rule, inst, 'no path')
                return
            chk.ok(rule, inst)
        finally:
            C.close()


def clean(f):
    """A condition on the client's own symbols only (nothing the analysis lost track of)."""
    for x in walk(f):
        if isinstance(x, (ExtV, BoundExt)) and not (isinstance(x, ExtV) and x.name.startswith('builtins.')):
            return False
        if isinstance(x, T) and x.op in ('call', 'fresh', 'popped', 'rest', 'splat', 'raises', 'setop', 'without', 'each', 'list', 'setv'):
            return False
    return True


def diff(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f'step {i + 1} is "{a}" instead of "{b}"'
    if len(got) > len(want):
        return f'{len(got) - len(want)} further step(s), first "{got[len(want)]}"'
    return f'ends after {len(got)} step(s), "{want[len(got)]}" is missing'
