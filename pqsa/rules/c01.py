"""C01: a command keeps all its parts."""
import itertools

from ..scen import Scen
from ..values import Exc, K, NONE, Ref, T, sym, tup

TECHNIQUE = 'interprocedural path-sensitive value-flow (abstract interpretation) of Command methods over all orders and states of up to 3 controls'


def pairs(p):
    """control id -> state bit"""
    ids, st = p[2], p[3]
    if ids is None or not isinstance(st, K) or not isinstance(st.v, str) or len(st.v) != len(ids):
        return None
    return dict(zip(ids, st.v))


def loc(chk, m):
    ci = chk.prog.cls('Command', 'projectq.ops')
    f = chk.prog.find_method(ci, m)
    return f.loc() if f else ci.loc()


def check(chk):
    chk.rule('construct', 'the constructor keeps gate, targets, tags and engine, and every control qubit keeps the state given for it (all '
             'orders of control ids, all states)', 40)
    chk.rule('copy', 'deepcopy(command) has equal parts and its own tag list', 20)
    chk.rule('inverse', 'get_inverse() changes only the gate', 20)
    chk.rule('merge', 'get_merged() changes only the gate', 3)
    chk.rule('merge-guard', 'get_merged() raises NotMergeable when targets, controls, control state, tags or engine differ', 5)
    chk.rule('eq', 'commands with equal parts compare equal', 4)
    chk.rule('neq', 'commands differing in one part compare unequal', 6)
    chk.rule('addctrl', 'add_control_qubits keeps the state of old and new control qubits', 20)
    chk.rule('addctrl-conflict', 'a control qubit added with a contradicting state is rejected', 1)
    chk.rule('engine', 'setting the engine sets it for every target and control qubit', 2)
    perms = [(), (1,), (1, 2), (2, 1)] + list(itertools.permutations((1, 2, 3)))
    for ids in perms:
        for bits in itertools.product('01', repeat=len(ids)):
            one(chk, ids, ''.join(bits))
    if chk.thorough:
        for ids in itertools.permutations((1, 2, 3, 4)):
            for bits in itertools.product('01', repeat=4):
                one(chk, ids, ''.join(bits))
    for given, want in ((0, '00'), (1, '10'), (2, '01'), (3, '11')):
        state_int(chk, given, want)
    compare(chk)
    add(chk)
    engine(chk)
    chk.assume = ['Qubit ids are only compared, ordered and hashed, so distinct constants in every relative order stand for all ids.',
                  'Up to 3 (thorough: 4) control qubits.']
    return ('Command construction, deepcopy, inverse, merge, ==, add_control_qubits and the engine setter are analysed from source for every '
            'order of control ids and every control state; parts of the result are compared with the parts given.')


def build(S, ids, state, gate=None, **kw):
    tag = S.new('ComputeTag', module='projectq.meta')
    tag2 = S.new('LogicalQubitIDTag', K(5), module='projectq.meta')
    gate = gate if gate is not None else S.gate('S')
    return S.cmd(gate, kw.get('qubits', [[20, 10], [11]]), ids, kw.get('tags', [tag, tag2]), state=state, engine=kw.get('engine'))


def one(chk, ids, state):
    inst = f'controls {ids} state {state!r}'
    want = dict(zip(map(K, ids), state))
    S = Scen(chk.prog)
    with chk.guard('construct', inst):
        c = build(S, ids, state)
        p = S.parts(S.st, c)
        chk.saw(S.I)
        eng = S.getattr(S.st, c, 'engine')[0]
        g = S.sig(S.st, S.gate('S'))
        wq = ((K(20), K(10)), (K(11),))
        wt = (('ComputeTag', ()), 'LogicalQubitIDTag')
        if pairs(p) != want:
            chk.fail('construct', 'Command.__init__', loc(chk, '__init__'), f'{inst}: control qubits end up with states {p[2]} / {p[3]}')
        elif p[0] != g or p[1] != wq or eng != sym('eng') or p[4] is None or [t[0] for t in p[4]] != ['ComputeTag', 'LogicalQubitIDTag']:
            chk.fail('construct', 'Command.__init__', loc(chk, '__init__'), f'{inst}: parts become {p}, engine {eng}')
        else:
            chk.ok('construct', inst)
        for m, rule, arg in (('__deepcopy__', 'copy', [NONE]), ('get_inverse', 'inverse', [])):
            outs = S.call(c, m, *arg)
            chk.saw(S.I, outs)
            bad = None
            for st, v in outs:
                if isinstance(v, Exc):
                    bad = f'raises {v}'
                    continue
                q = S.parts(st, v)
                if q is None:
                    bad = f'returns {v!r}, not a command'
                    continue
                gw = p[0] if rule == 'copy' else S.sig(S.st, S.gate('Sdag'))
                if rule == 'inverse':
                    ok_gate = q[0] != p[0] or q[0] == gw
                else:
                    ok_gate = q[0] == gw
                e2 = S.getattr(st, v, 'engine')[0]
                if q[1:] != p[1:] or pairs(q) != pairs(p) or not ok_gate or e2 != eng:
                    bad = f'{p} (engine {eng}) becomes {q} (engine {e2})'
                t1, t2 = S.getattr(st, c, 'tags')[0], S.getattr(st, v, 'tags')[0]
                if t1 == t2:
                    bad = 'the copy shares the tag list with the original'
            if bad:
                chk.fail(rule, f'Command.{m}', loc(chk, m), f'{inst}: {bad}')
            else:
                chk.ok(rule, inst)


def state_int(chk, given, want):
    """An integer state of two controls, controls given in descending order of ids."""
    S = Scen(chk.prog)
    inst = f'controls (2, 1) state {given}'
    with chk.guard('construct', inst):
        c = build(S, (2, 1), K(given))
        p = S.parts(S.st, c)
        w = {K(2): want[0], K(1): want[1]}
        if pairs(p) != w:
            chk.fail('construct', 'Command.__init__', loc(chk, '__init__'), f'{inst}: control qubits end up with {p[2]} / {p[3]}, expected {w}')
        else:
            chk.ok('construct', inst)


VARIANTS = {
    'target qubits': dict(qubits=[[20, 12], [11]]),
    'order of target qubits': dict(qubits=[[10, 20], [11]]),
    'control qubits': dict(ids=(1, 4)),
    'control state': dict(state='11'),
    'number of controls': dict(ids=(1,), state='0'),
    'tags': dict(notag=True),
    'order of tags': dict(swaptag=True),
    'engine': dict(engine=sym('other_engine')),
}


def compare(chk):
    for what in [None] + list(VARIANTS) + ['gate']:
        S = Scen(chk.prog)
        S.I.distinct |= {sym('eng'), sym('other_engine')}
        tag = S.new('ComputeTag', module='projectq.meta')
        tag2 = S.new('UncomputeTag', module='projectq.meta')
        a, b = sym('a'), sym('b')
        v = VARIANTS.get(what, {})
        c1 = build(S, (1, 2), '01', S.new('Rz', a, module='projectq.ops'), tags=[tag, tag2])
        tags = [tag] if v.get('notag') else [tag2, tag] if v.get('swaptag') else [tag, tag2]
        g2 = S.new('Rx' if what == 'gate' else 'Rz', b if what is None else a, module='projectq.ops')
        kw = {k: x for k, x in v.items() if k in ('qubits', 'engine')}
        c2 = build(S, v.get('ids', (1, 2)), v.get('state', '01'), g2, tags=tags, **kw)
        p1 = S.parts(S.st, c1)
        rule = 'merge' if what is None else 'merge-guard'
        if what != 'gate':
            inst = 'equal commands' if what is None else f'different {what}'
            with chk.guard(rule, inst):
                outs = S.call(c1, 'get_merged', c2)
                chk.saw(S.I, outs)
                bad = None
                for st, r in outs:
                    if isinstance(r, Exc):
                        if what is None or r.name != 'NotMergeable':
                            bad = f'raises {r.name}'
                    elif what is not None:
                        bad = f'is merged into {S.parts(st, r)}'
                    else:
                        q = S.parts(st, r)
                        if q is None or q[1:] != p1[1:] or S.getattr(st, r, 'engine')[0] != sym('eng'):
                            bad = f'{p1} becomes {q}'
                        elif S.getattr(st, r, 'tags')[0] == S.getattr(st, c1, 'tags')[0]:
                            bad = 'the merged command shares the tag list'
                        else:
                            chk.ok('merge', f'path {len(st.facts)}')
                if bad:
                    chk.fail(rule, f'Command.get_merged/{what or "same"}', loc(chk, 'get_merged'), f'{inst}: {bad}')
                else:
                    chk.ok(rule, inst)
        rule = 'eq' if what is None else 'neq'
        with chk.guard(rule, f'{what}'):
            if what is None:
                for n in range(4):
                    ids = (3, 1, 2)[:n]
                    S2 = Scen(chk.prog)
                    t = S2.new('ComputeTag', module='projectq.meta')
                    d1 = build(S2, ids, '010'[:n], S2.gate('X'), tags=[t])
                    d2 = build(S2, ids[::-1], '010'[:n][::-1], S2.gate('X'), tags=[t])
                    eqcheck(chk, S2, d1, d2, True, 'eq', f'equal parts, {n} controls')
            else:
                eqcheck(chk, S, c1, c2, False, 'neq', f'different {what}')
    S = Scen(chk.prog)
    with chk.guard('neq', 'not a command'):
        c = build(S, (1,), '0')
        eqcheck(chk, S, c, K(5), False, 'neq', 'not a command')


def eqcheck(chk, S, a, b, want, rule, inst):
    outs = S.call(a, '__eq__', b)
    chk.saw(S.I, outs)
    for st, r in outs:
        if isinstance(r, Exc):
            chk.fail(rule, f'Command.__eq__/{inst}', loc(chk, '__eq__'), f'{inst}: raises {r}')
            return
        for s2, t in S.I.truth(r, st):
            if t is not want:
                chk.fail(rule, f'Command.__eq__/{inst}', loc(chk, '__eq__'), f'{inst}: compares {"un" if want else ""}equal')
                return
    chk.ok(rule, inst)


def add(chk):
    for old in ((), (2,), (2, 4)):
        for new in ((1,), (3,), (5,), (3, 1), (1, 5), (5, 3)):
            for bo in itertools.product('01', repeat=len(old)):
                for bn in itertools.product('01', repeat=len(new)):
                    S = Scen(chk.prog)
                    inst = f'{dict(zip(old, bo))} + {dict(zip(new, bn))}'
                    with chk.guard('addctrl', inst):
                        c = build(S, old, ''.join(bo))
                        p = S.parts(S.st, c)
                        outs = S.call(c, 'add_control_qubits', S.list(*[S.qubit(i) for i in new]), K(''.join(bn)))
                        chk.saw(S.I, outs)
                        want = {**dict(zip(map(K, old), bo)), **dict(zip(map(K, new), bn))}
                        bad = None
                        for st, v in outs:
                            if isinstance(v, Exc):
                                bad = f'raises {v}'
                                continue
                            q = S.parts(st, c)
                            if pairs(q) != want or q[:2] != p[:2] or q[4] != p[4]:
                                bad = f'control qubits end up as {q[2]} / {q[3]}'
                        if bad:
                            chk.fail('addctrl', 'Command.add_control_qubits', loc(chk, 'add_control_qubits'), f'{inst}: {bad}')
                        else:
                            chk.ok('addctrl', inst)
    S = Scen(chk.prog)
    with chk.guard('addctrl-conflict', 'conflict'):
        c = build(S, (2, 4), '01')
        outs = S.call(c, 'add_control_qubits', S.list(S.qubit(4)), K('0'))
        if all(isinstance(v, Exc) for _, v in outs):
            chk.ok('addctrl-conflict', 'control qubit 4 already conditioned on 1')
        else:
            chk.fail('addctrl-conflict', 'Command.add_control_qubits', loc(chk, 'add_control_qubits'), 'a contradicting control state is accepted')


def engine(chk):
    S = Scen(chk.prog)
    with chk.guard('engine', 'engine setter'):
        c = build(S, (1, 2), '01')
        ci = S.I.class_of(c)
        m = chk.prog.find_setter(ci, 'engine')
        st = S.st.fork()
        fi = m or chk.prog.find_method(ci, '__init__')
        st.stack = ((fi, -1),)
        st.frames[-1] = {'$closure': None, '$fi': fi}
        for s, v in S.I.set_attr(st, c, 'engine', sym('new_engine'), fi.node):
            for what in ('qubits', 'control_qubits'):
                r = S.getattr(s, c, what)[0]
                regs = [r] if what == 'control_qubits' else S.I.items(s, r)
                engs = {S.getattr(s, q, 'engine')[0] for x in regs for q in S.I.items(s, x)}
                if engs != {sym('new_engine')}:
                    chk.fail('engine', f'Command.engine/{what}', fi.loc(), f'{what} keep engine {engs}')
                else:
                    chk.ok('engine', what)
