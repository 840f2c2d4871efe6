"""Building abstract scenarios: qubits, gates, commands, engines; and reading results."""
import ast

from .core import State
from .interp import Interp
from .model import AnalysisError
from .values import (FALSE, K, NONE, TRUE, BoundExt, ClsV, Exc, ExtV, FnV, ModV, Ref, SuperV, T, Val, attr, is_tuple, strip_copy, sym,
                     tup, walk)


class Scen:
    """One abstract scenario: an interpreter and a start state."""

    def __init__(self, prog, **opt):
        self.prog = prog
        self.I = Interp(prog, **opt)
        self.st = State()
        self.keep_facts = set()

    # -- helpers that must be deterministic (a single path)
    def one(self, outs, what):
        outs = [(s, v) for s, v in outs if not isinstance(v, Exc)]
        # set-up of a scenario: the path on which nothing special is the case
        outs.sort(key=lambda o: sum(b for b in o[0].facts.values()))
        outs = outs[:1]
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise AnalysisError(f'{what}: {len(outs)} outcomes {[v for _, v in outs][:3]}')
        self.st = outs[0][0]
        self.st.facts = {f: b for f, b in self.st.facts.items() if f in self.keep_facts}
        return outs[0][1]

    def cls(self, name, module=None):
        return self.prog.cls(name, module)

    def glob(self, name, module='projectq.ops'):
        v = self.I.mod_attr(module, name, self.st)
        if isinstance(v, ExtV):
            raise AnalysisError(f'{module}.{name} not found')
        return v

    def gate(self, name):
        return self.glob(name)

    def new(self, name, *args, module=None, **kw):
        ci = self.prog.cls(name, module)
        return self.one(self.I.instantiate(self.st, ci, args, kw), f'{name}(...)')

    def obj(self, name, module=None, **attrs):
        """An object of a class in an arbitrary state: unknown attributes are provenance terms."""
        ci = self.prog.cls(name, module)
        s = sym(name.lower() + str(next(self.I.uid)))
        self.I.types[s] = ci
        for k, v in attrs.items():
            self.st.attrs[(s, k)] = v
        return s

    def unknown_gate(self, name='G', base='BasicGate', **attrs):
        s = sym(name)
        self.I.types[s] = self.prog.cls(base, 'projectq.ops')
        self.I.distinct.add(s)
        self.st.attrs[(s, 'interchangeable_qubit_indices')] = self.I.new_list(self.st)
        for k, v in attrs.items():
            self.st.attrs[(s, k)] = v
        return s

    def list(self, *xs):
        return self.I.new_list(self.st, [('item', x) for x in xs])

    def qubit(self, idx, engine=None, cls='WeakQubitRef'):
        return self.new(cls, engine if engine is not None else sym('eng'), idx if isinstance(idx, Val) else K(idx), module='projectq.types')

    def cmd(self, gate, qubits, controls=(), tags=(), state=None, engine=None):
        """qubits: list of lists of ids"""
        eng = engine if engine is not None else sym('eng')
        regs = tup(*[self.list(*[self.qubit(i, eng) for i in r]) for r in qubits])
        kw = {}
        if state is not None:
            kw['control_state'] = K(state) if not isinstance(state, Val) else state
        n = len(self.st.eff)
        c = self.new('Command', eng, gate, regs, self.list(*[self.qubit(i, eng) for i in controls]), self.list(*tags),
                     module='projectq.ops', **kw)
        del self.st.eff[n:]
        return c

    def call(self, obj, method, *args, st=None, **kw):
        """All outcomes of obj.method(*args) -> [(state, value|Exc)]; effects recorded from this point on."""
        st = (st or self.st).fork()
        st.eff = []
        I = self.I
        ci = I.class_of(obj)
        if ci is None:
            raise AnalysisError(f'{obj} has no class')
        m = self.prog.find_method(ci, method)
        if m is None:
            raise AnalysisError(f'{ci.name} has no method {method}')
        st.stack = ((m, -1),)
        st.frames[-1] = {'$closure': None, '$fi': m}
        outs = I.call_fn(st, FnV(m, obj), list(args), kw, m.node, force=True)
        return outs

    def callf(self, fv, *args, st=None, **kw):
        st = (st or self.st).fork()
        st.eff = []
        st.stack = ((fv.fi, -1),)
        st.frames[-1] = {'$closure': None, '$fi': fv.fi}
        return self.I.call_fn(st, fv, list(args), kw, fv.fi.node, force=True)

    def getattr(self, st, obj, name):
        """Value of an attribute or property (single outcome) in a state."""
        s = st.fork()
        if not s.stack:
            fi = next(f for m in self.prog.modules.values() for f in m.funcs.values())
            s.stack = ((fi, -1),)
            s.frames.setdefault(-1, {'$closure': None, '$fi': fi})
        r = self.I.get_attr(s, obj, name, ast.parse('0').body[0])
        if len(r) != 1:
            raise AnalysisError(f'{name}: {len(r)} values')
        return r[0][1], r[0][0]

    # -- reading
    def ids(self, st, reg):
        it = self.I.items(st, reg)
        if it is None:
            return None
        return tuple(self.getattr(st, q, 'id')[0] for q in it)

    def parts(self, st, cmd):
        """(gate, qubit ids per register, control ids, control state, tags) of a command value in a state."""
        if not isinstance(cmd, Val) or self.I.class_of(cmd) is None or self.I.class_of(cmd).name != 'Command':
            return None
        g, _ = self.getattr(st, cmd, 'gate')
        qs, _ = self.getattr(st, cmd, 'qubits')
        cq, _ = self.getattr(st, cmd, 'control_qubits')
        cs, _ = self.getattr(st, cmd, 'control_state')
        tg, _ = self.getattr(st, cmd, 'tags')
        regs = self.I.items(st, qs)
        g = self.sig(st, g)
        return (g, tuple(self.ids(st, r) for r in regs) if regs is not None else None, self.ids(st, cq), cs,
                tuple(self.sig(st, t) for t in self.I.items(st, tg)) if self.I.items(st, tg) is not None else None)

    def sig(self, st, v, depth=0):
        """Structural description of a value: class and attributes of an object, the original of a copy."""
        if isinstance(v, Ref) and depth < 5:
            ci = self.I.class_of(v)
            k = self.I.kind(v)
            if ci is not None and k is None:
                names = {n for (b, n) in list(st.attrs) + list(self.I.g_attrs) if b == v}
                return (ci.name, tuple((n, self.sig(st, self.I.getattr_heap(st, v, n), depth + 1)) for n in sorted(names)))
            it = self.I.items(st, v)
            if it is not None and k in ('list', 'tuple'):
                return ('list',) + tuple(self.sig(st, x, depth + 1) for x in it)
            if k == 'dict' and st.dkeys.get(v, self.I.g_dkeys.get(v)) is not None:
                ks = st.dkeys.get(v, self.I.g_dkeys.get(v))
                return ('dict',) + tuple((self.sig(st, x, depth + 1), self.sig(st, self.I.ditem(st, v, x), depth + 1)) for x in ks)
            return repr(self.I.freeze(st, v))
        if is_tuple(v):
            return ('list',) + tuple(self.sig(st, x, depth + 1) for x in v.args)
        return repr(strip_copy(v))


def send_hook(record):
    """Hook for BasicEngine.send: note the commands instead of calling the next engine."""
    def hook(I, st, fv, args, kw, node):
        lst = args[0] if args else kw.get('command_list')
        I.effect(st, 'send', node, target=fv.selfv, args=(I.freeze(st, lst),), data=(lst, I.items(st, lst), record(I, st, lst) if record else None))
        return [(st, NONE)]
    return hook


def wire(S, eng, last=False, nxt=None):
    """Place an abstract engine in the chain: opaque next and main engine."""
    nxt = nxt if nxt is not None else sym('next')
    main = sym('main')
    S.st.attrs[(eng, 'next_engine')] = nxt if not last else NONE
    S.st.attrs[(eng, 'main_engine')] = main
    S.st.attrs[(eng, 'is_last_engine')] = K(last)
    return nxt


def receive_hook(S):
    """Record commands handed to an engine outside the analysed code, with their parts at that moment."""
    def hook(I, st, recv, name, args, kw, node):
        lst = args[0] if args else kw.get('command_list')
        items = I.items(st, lst)
        cmds = None
        if items is not None:
            cmds = [(c, S.parts(st, c)) for c in items]
        I.effect(st, 'send', node, target=recv, args=(I.freeze(st, lst),), data=cmds)
        return [(st, NONE)]
    return hook


def sends(st, target=None):
    """Commands sent on this path in order [(value, parts, effect)]; None when a send happens in a loop or is unknown."""
    out = []
    for e in st.eff:
        if e.kind == 'loop' and any(x.kind == 'send' for p in e.data for x in flat(p.effects)):
            return None
        if e.kind == 'send' and (target is None or e.target == target):
            if e.data is None:
                return None
            out += [(c, p, e) for c, p in e.data]
    return out


def flat(effects):
    for e in effects:
        yield e
        if e.kind == 'loop':
            for p in e.data:
                yield from flat(p.effects)


def gate_kinds(S):
    """Representative gates of the kinds engines distinguish."""
    return {
        'Allocate': (S.gate('Allocate'), [[1]], ()),
        'Deallocate': (S.gate('Deallocate'), [[1]], ()),
        'Measure': (S.gate('Measure'), [[1]], ()),
        'Flush': (S.new('FlushGate', module='projectq.ops'), [[-1]], ()),
        'X': (S.gate('X'), [[1]], ()),
        'CNOT': (S.gate('X'), [[1]], (2,)),
        'Swap': (S.gate('Swap'), [[1], [2]], ()),
        'Rz': (S.new('Rz', sym('angle'), module='projectq.ops'), [[2]], ()),
        'unknown gate': (S.unknown_gate('G'), [[1, 2], [3]], (4,)),
    }
