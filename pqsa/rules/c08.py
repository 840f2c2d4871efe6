"""C08: pass-through engines forward every command exactly once, unchanged and in order."""
from ..scen import Scen, gate_kinds, receive_hook, sends, wire
from ..values import Exc, K, NONE, T, Val, sym, walk
from ..model import AnalysisError

# engines that may sit in the middle of a chain; what each of them is documented to do to a command
UNCHANGED = [('DummyEngine', 'projectq.cengines'), ('CompareEngine', 'projectq.cengines'), ('InstructionFilter', 'projectq.cengines'),
             ('ResourceCounter', 'projectq.backends'), ('CommandPrinter', 'projectq.backends'), ('Simulator', 'projectq.backends'),
             ('ClassicalSimulator', 'projectq.backends'), ('CircuitDrawer', 'projectq.backends'),
             ('CircuitDrawerMatplotlib', 'projectq.backends'), ('MainEngine', 'projectq.cengines'), ('UnitarySimulator', 'projectq.backends')]
TAGS = [('TagRemover', 'projectq.cengines')]
MODIFIED = [('CommandModifier', 'projectq.cengines'), ('ForwarderEngine', 'projectq.cengines')]
MAPPED = [('BasicMapperEngine', 'projectq.cengines'), ('ManualMapper', 'projectq.cengines')]


def check(chk):
    chk.rule('forward', 'receive(l) of a pass-through engine hands exactly the commands of l to the next engine, each once, in order, with gate, '
             'qubits, controls, control state and tags unchanged, on every path that returns', 40)
    chk.rule('tags', 'TagRemover forwards every command once; gate, qubits and controls unchanged, tags reduced to exactly those that are '
             'not an instance of a removed class, in order', 4)
    chk.rule('modified', 'CommandModifier / ForwarderEngine send f(cmd) for every cmd, once and in order', 2)
    chk.rule('mapped', 'a simple mapper sends one command per received command, same gate and control state, in order', 8)
    for name, mod in UNCHANGED + MAPPED:
        kinds = list(gate_kinds(Scen(chk.prog)))
        pairs = [(k, 'X') for k in kinds] + [('X', k) for k in kinds if k != 'X']
        if chk.thorough:
            pairs = [(a, b) for a in kinds for b in kinds]
        for a, b in pairs:
            with chk.guard('mapped' if (name, mod) in MAPPED else 'forward', f'{name}.receive([{a}, {b}])'):
                forward(chk, name, mod, a, b, (name, mod) in MAPPED)
    for name, mod in TAGS:
        tags(chk, name, mod)
    for name, mod in MODIFIED:
        modified(chk, name, mod)
    chk.assume = ['Commands are abstract objects built with Command\'s public constructor; the engine is in an arbitrary state '
                  '(every attribute opaque) except for its place in the chain.',
                  'receive() treats list elements independently of the list length beyond two (two-element lists of all '
                  'kinds from an arbitrary state are analysed).']
    return ('For every engine that is not a consumer, receive([c1, c2]) is analysed by interprocedural path-sensitive value flow from an arbitrary '
            'engine state, for all pairs of command kinds; each returning path must hand exactly c1, c2 to next_engine.receive.')


def forward(chk, name, mod, a, b, mapped):
    S = Scen(chk.prog, max_paths=20000)
    S.I.hooks['m:receive'] = receive_hook(S)
    eng = S.obj(name, mod)
    nxt = wire(S, eng)
    kinds = gate_kinds(S)
    tag = S.new('ComputeTag', module='projectq.meta')
    ga, qa, ca = kinds[a]
    gb, qb, cb = kinds[b]
    c1 = S.cmd(ga, qa, ca, [tag], state='0' * len(ca))
    c2 = S.cmd(gb, qb, cb, [tag], state='1' * len(cb))
    want = [(c1, S.parts(S.st, c1)), (c2, S.parts(S.st, c2))]
    if name == 'MainEngine':
        S.st.attrs[(eng, 'main_engine')] = eng
    inst = f'{name}.receive([{a}, {b}])'
    rule = 'mapped' if mapped else 'forward'
    try:
        outs = S.call(eng, 'receive', S.list(c1, c2))
    except AnalysisError as e:
        chk.unknown(rule, inst, str(e))
        return
    chk.saw(S.I, outs)
    good = 0
    for st, v in outs:
        if isinstance(v, Exc):
            continue
        got = sends(st)
        if got is None:
            chk.unknown(rule, inst, 'commands sent inside an unbounded loop')
            return
        if any(p is None for c, p, e in got):
            chk.unknown(rule, inst, 'an unknown value is sent')
            return
        loc = got[-1][2].loc if got else chk.prog.cls(name, mod).methods['receive'].loc()
        if any(e.target != nxt for c, p, e in got):
            chk.fail(rule, f'{name}.receive', loc, f'{inst}: a command is sent to {got[-1][2].target!r} instead of the next engine')
            return
        if len(got) != 2:
            chk.fail(rule, f'{name}.receive', loc, f'{inst}: {len(got)} commands are passed on instead of 2 '
                     f'(path conditions: {conds(st)})')
            return
        for (c, p, e), (w, wp), src in zip(got, want, (a, b)):
            if mapped:
                if p[0] != wp[0] or p[3] != wp[3] or p[1] is None or [len(r) for r in p[1]] != [len(r) for r in wp[1]]:
                    chk.fail(rule, f'{name}.receive', e.loc, f'{inst}: {wp} is passed on as {p}')
                    return
            elif p != wp:
                chk.fail(rule, f'{name}.receive', e.loc, f'{inst}: {wp} is passed on as {p} (conditions: {conds(st)})')
                return
        good += 1
    if good:
        chk.ok(rule, f'{inst} ({good} paths)')
    else:
        chk.ok(rule, f'{inst} (refused on every path)')


def conds(st):
    return ', '.join(f'{f!r}={b}' for f, b in list(st.facts.items())[:6])


def tags(chk, name, mod):
    for given in (None, ['LoopTag']):
        for n in (0, 1):
            S = Scen(chk.prog)
            S.I.hooks['m:receive'] = receive_hook(S)
            loop = S.new('LoopTag', K(3), module='projectq.meta._loop')
            ct, ut = S.new('ComputeTag', module='projectq.meta'), S.new('UncomputeTag', module='projectq.meta')
            lq = S.new('LogicalQubitIDTag', K(9), module='projectq.meta')
            removed = [S.sig(S.st, t) for t in ([ct, ut] if given is None else [loop])]
            args = [] if given is None else [S.list(S.glob('LoopTag', 'projectq.meta._loop'))]
            eng = S.new(name, *args, module=mod)
            nxt = wire(S, eng)
            all_tags = [ct, lq, loop, ut, lq] if n else []
            c1 = S.cmd(S.gate('X'), [[1]], (2,), all_tags, state='0')
            c2 = S.cmd(S.gate('Swap'), [[1], [2]], (), all_tags[:2])
            w1, w2 = S.parts(S.st, c1), S.parts(S.st, c2)
            keep = [tuple(t for t in w[4] if t not in removed) for w in (w1, w2)]
            outs = S.call(eng, 'receive', S.list(c1, c2))
            chk.saw(S.I, outs)
            inst = f'{name}({given or ""}) with {len(all_tags)} tags'
            bad = None
            for st, v in outs:
                got = sends(st)
                if isinstance(v, Exc):
                    bad = ('', f'raises {v}')
                elif got is None:
                    chk.unknown('tags', inst, 'sends in a loop')
                    return
                elif len(got) != 2:
                    bad = (got[0][2].loc if got else '', f'{len(got)} commands passed on instead of 2')
                else:
                    for (c, p, e), w, k in zip(got, (w1, w2), keep):
                        if p is None or p[:4] != w[:4] or p[4] != k:
                            bad = (e.loc, f'{w} is passed on as {p}')
            if bad:
                chk.fail('tags', f'{name}.receive', bad[0], f'{inst}: {bad[1]}')
            else:
                chk.ok('tags', inst)


def modified(chk, name, mod):
    S = Scen(chk.prog)
    f = sym('user_function')
    if name == 'ForwarderEngine':
        nxt = sym('next')
        eng = S.new(name, nxt, f, module=mod)
    else:
        eng = S.new(name, f, module=mod)
        nxt = wire(S, eng)

    def hook(I, st, recv, nm, args, kw, node):
        items = I.items(st, args[0])
        I.effect(st, 'send', node, target=recv, args=(), data=None if items is None else [(c, None) for c in items])
        return [(st, NONE)]
    S.I.hooks['m:receive'] = hook
    c1, c2 = S.cmd(S.gate('X'), [[1]]), S.cmd(S.gate('H'), [[1]])
    outs = S.call(eng, 'receive', S.list(c1, c2))
    chk.saw(S.I, outs)
    for st, v in outs:
        got = sends(st)
        if got is None or isinstance(v, Exc):
            chk.unknown('modified', name, 'sends not known')
            return
        vals = [c for c, _, _ in got]
        want = [T('call', f, (c1,), ()), T('call', f, (c2,), ())]
        if vals != want or any(e.target != nxt for _, _, e in got):
            chk.fail('modified', f'{name}.receive', got[0][2].loc if got else '', f'sends {vals} instead of {want}')
            return
    chk.ok('modified', name)
