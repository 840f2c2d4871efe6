"""C10: meta sections leave the compiler pipeline as they found it."""
from .. import metasem
from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: interprocedural path-sensitive abstract interpretation of client programs over the real engine chain (all context managers, exits normal / exceptional / failing engine, all insertion points)'

CTX = {
    'Control': ('Control(x, c)', 1), 'Control of a qubit list': ('Control(x, c + d)', 1), 'Control without qubits': ('Control(x, [])', 0),
    'Control of a single qubit': ('Control(x, c[0])', 1),
    'Control state 0': ("Control(x, c, ctrl_state='0')", 1), 'Dagger': ('Dagger(x)', 1), 'Loop 0': ('Loop(x, 0)', 1),
    'Loop 1': ('Loop(x, 1)', None), 'Loop 2': ('Loop(x, 2)', 1), 'Loop 5': ('Loop(x, 5)', 1), 'CustomUncompute': ('CustomUncompute(x)', 1),
}
HEAD = '''
def chain(eng):
    out = []
    e = eng
    while e is not None:
        out.append(e)
        e = e.next_engine
    return out


def client():
    mid = Recorder()
    eng = main_engine(BACKEND, [DummyEngine(), DummyEngine()])
    x = WHERE
    c = [WeakQubitRef(eng, 50)]
    d = [WeakQubitRef(eng, 51)]
    q = [WeakQubitRef(eng, 52)]
    n0 = eng.n_engines
    PRE
    before = chain(eng)
'''
TAIL = '''
    after = chain(eng)
    probe('chain kept', len(after) == len(before) and all(a is b for a, b in zip(after, before)))
    probe('main kept', all(e.main_engine is eng for e in after))
    probe('count kept', eng.n_engines == n0)
'''
KEPT = ["probe 'chain kept' True", "probe 'main kept' True", "probe 'count kept' True"]


def body(ctx, action, indent='    '):
    lines = [f'with {ctx}:', "    probe('more', len(chain(eng)) - len(before), eng.n_engines - n0)",
             "    probe('placed', same(chain(eng), before, x, eng))"] + ['    ' + a for a in action]
    return '\n'.join(indent + a for a in lines) + '\n'


SAME = '''
def same(now, before, x, eng):
    """now is before with at most one more engine, directly behind x, every engine knowing the compiler"""
    i = 0
    while before[i] is not x:
        i += 1
    if len(now) == len(before):
        ok = True
        rest = now[i + 1:]
    else:
        ok = len(now) == len(before) + 1
        rest = now[i + 2:]
    a = now[:i + 1] + rest
    return ok and all(p is r for p, r in zip(a, before)) and all(e.main_engine is eng for e in now)
'''


def check(chk):
    chk.rule('normal', 'after leaving a section normally the chain consists of the same engines in the same order, each knowing the compiler, '
             'and n_engines is what it was; inside, at most one engine more, directly behind the engine the section was opened on', 8)
    chk.rule('exception', 'the same when the body raises', 8)
    chk.rule('engine-fails', 'the same when an engine behind raises while the section is left', 4)
    chk.rule('nested', 'the same for sections nested in one another', 6)
    chk.rule('compute', 'a compute section adds one engine until its uncompute has run', 3)
    chk.rule('limit', 'inserting more engines than the maximum is refused and changes nothing', 1)
    chk.rule('symbolic', 'insert and drop keep n_engines balanced for any number of engines', 1)
    mod = chk.prog.modules['projectq.meta._util']
    loc = {k: chk.prog.cls(k, 'projectq.meta').loc() for k in ('Control', 'Dagger', 'Loop', 'Compute', 'CustomUncompute')}
    wheres = {'the compiler': ('eng', 'x = eng'), 'the second engine': ('eng.next_engine', '')}
    for name, (ctx, n) in CTX.items():
        cls = ctx.split('(')[0]
        # 'Loop 1' needs no engine; inserting one would be equally correct
        alts = [n] if n is not None else [0, 1]
        for wn, (where, _) in wheres.items():
            pre = 'pass' if cls != 'CustomUncompute' else 'with Compute(x):\n        UserGate(9) | q'
            base = HEAD.replace('WHERE', where)
            if cls == 'CustomUncompute':
                # the section replaces the engine of the compute section: compare with the chain before that
                base = base.replace('    PRE\n    before = chain(eng)', '    before = chain(eng)\n    PRE')
            base = base.replace('PRE', pre)
            for act, rule in ((['UserGate(1) | q'], 'normal'), (["UserGate(1) | q", "raise LookupError('x')"], 'exception')):
                tail = TAIL
                src = base.replace('BACKEND', 'Recorder()') + (
                    body(ctx, act) if rule == 'normal' else
                    '    try:\n' + body(ctx, act, '        ') + "    except LookupError:\n        probe('caught')\n") + tail + SAME
                want = [[f"probe 'more' {k} {k}", "probe 'placed' True"] + (["probe 'caught'"] if rule == 'exception' else []) + KEPT for k in alts]
                expect(chk, rule, f'{name} opened on {wn}', src, want, f'{cls}/{rule}', loc[cls], what=('probe',))
    for name, ctx in (('Dagger', 'Dagger(x)'), ('Loop 2', 'Loop(x, 2)'), ('Loop 3', 'Loop(x, 3)')):
        cls = ctx.split('(')[0]
        for wn, (where, _) in wheres.items():
            src = HEAD.replace('WHERE', where).replace('PRE', 'pass').replace('BACKEND', 'Failing()') + '    try:\n' + body(
                ctx, ['UserGate(1) | q'], '        ') + "    except KeyError:\n        probe('caught')\n" + TAIL + SAME
            expect(chk, 'engine-fails', f'{name} opened on {wn}', src, ["probe 'more' 1 1", "probe 'placed' True", "probe 'caught'"] + KEPT,
                   f'{cls}/engine-fails', loc[cls], what=('probe',))
    # a section that is left because its check fails (qubits not deallocated, ...)
    for name, ctx, err in (('Dagger with live local qubit', 'Dagger(x)', 'QubitManagementError'), ('Loop with live local qubit', 'Loop(x, 2)', 'QubitManagementError')):
        cls = ctx.split('(')[0]
        src = HEAD.replace('WHERE', 'eng').replace('PRE', 'pass').replace('BACKEND', 'Recorder()') + '    try:\n' + body(
            ctx, ['a = x.allocate_qubit()', 'UserGate(1) | a'], '        ') + f"    except {err}:\n        probe('caught')\n" + TAIL + SAME
        src = 'from projectq.meta._exceptions import QubitManagementError\n' + src
        expect(chk, 'exception', name, src, ["probe 'more' 1 1", "probe 'placed' True", "probe 'caught'"] + KEPT, f'{cls}/check-fails', loc[cls], what=('probe',))
    # CustomUncompute whose check fails
    src = 'from projectq.meta._exceptions import QubitManagementError\n' + HEAD.replace('WHERE', 'eng').replace('PRE', 'pass').replace('BACKEND', 'Recorder()') + '''
    with Compute(x):
        a = x.allocate_qubit()
    try:
        with CustomUncompute(x):
            UserGate(1) | q
    except QubitManagementError:
        probe('caught')
''' + TAIL
    expect(chk, 'exception', 'CustomUncompute with live local qubit', src, ["probe 'caught'"] + KEPT, 'CustomUncompute/check-fails',
           loc['CustomUncompute'], what=('probe',))
    ctxs = [c for n, (c, k) in CTX.items() if k == 1 and not c.startswith('Custom') and n in ('Control', 'Dagger', 'Loop 2')]
    for a in ctxs:
        for b in ctxs:
            for mode in ('normal', 'exception'):
                src = HEAD.replace('WHERE', 'eng').replace('PRE', 'pass').replace('BACKEND', 'Recorder()') + f'''
    try:
        with {a}:
            n1 = eng.n_engines
            c1 = chain(eng)
            try:
                with {b.replace('c)', 'd)')}:
                    UserGate(1) | q
                    {"raise LookupError('x')" if mode == 'exception' else 'pass'}
            finally:
                c2 = chain(eng)
                probe('inner', eng.n_engines == n1, len(c1) == len(c2) and all(u is v for u, v in zip(c1, c2)))
    except LookupError:
        pass
''' + TAIL
                expect(chk, 'nested', f'{a} around {b}, {mode}', src, ["probe 'inner' True True"] + KEPT, f'{a.split("(")[0]}/nested', loc[a.split('(')[0]], what=('probe',))
    for unc in ('Uncompute(x)', 'with CustomUncompute(x):\n        UserGate(-1) | q'):
        for where in ('eng', 'eng.next_engine'):
            src = HEAD.replace('WHERE', where).replace('PRE', 'pass').replace('BACKEND', 'Recorder()') + f'''
    with Compute(x):
        UserGate(1) | q
        probe('more', len(chain(eng)) - len(before), eng.n_engines - n0)
        probe('placed', same(chain(eng), before, x, eng))
    probe('more', len(chain(eng)) - len(before), eng.n_engines - n0)
    UserGate(2) | q
    {unc}
''' + TAIL + SAME
            expect(chk, 'compute', f'{unc.split("(")[0]} on {where}', src, ["probe 'more' 1 1", "probe 'placed' True", "probe 'more' 1 1"] + KEPT,
                   f'Compute/{unc.split("(")[0].split()[-1]}', loc['Compute'], what=('probe',))
            src = HEAD.replace('WHERE', where).replace('PRE', 'pass').replace('BACKEND', 'Recorder()') + f'''
    try:
        {unc.replace(chr(10), chr(10) + '    ')}
    except Exception:
        probe('caught')
''' + TAIL
            expect(chk, 'compute', f'{unc.split("(")[0]} without compute section on {where}', src, ["probe 'caught'"] + KEPT,
                   f'Compute/{unc.split("(")[0].split()[-1]}-without', loc['Compute'], what=('probe',))
    src = HEAD.replace('WHERE', 'eng').replace('PRE', 'pass').replace('BACKEND', 'Recorder()') + '''
    eng.n_engines_max = eng.n_engines
    try:
        with Dagger(x):
            probe('entered')
    except RuntimeError:
        probe('refused')
''' + TAIL
    expect(chk, 'limit', 'maximum number of engines reached', src, ["probe 'refused'"] + KEPT, 'insert_engine/limit', mod.funcs['insert_engine'].loc() if 'insert_engine' in mod.funcs else mod.rel, what=('probe',))
    src = '''
from projectq.meta._util import insert_engine, drop_engine_after
def client(n, m):
    eng = main_engine()
    eng.n_engines = n
    eng.n_engines_max = m
    old = eng.next_engine
    e = DummyEngine()
    try:
        insert_engine(eng, e)
        probe(eng.n_engines - n, eng.next_engine is e, e.next_engine is old, e.main_engine is eng)
        d = drop_engine_after(eng)
        probe(eng.n_engines - n, eng.next_engine is old, d is e, e.next_engine is None, e.main_engine is None)
    except RuntimeError:
        probe('refused', eng.n_engines - n, eng.next_engine is old)
'''
    from ..values import sym
    expect(chk, 'symbolic', 'insert and drop with n engines of at most m', src,
           [['probe 1 True True True', 'probe 0 True True True True'], ["probe 'refused' 0 True"]], 'insert_engine/drop_engine_after',
           mod.rel, args=(sym('n'), sym('m')))
    metasem.judge_chain(chk, 80, 600, loc['Control'], 'meta sections')
    chk.assume = ['Engines are told apart by identity; sections are opened on the compiler itself or on an engine inside the chain.']
    return ('Client programs open, use and leave every kind of section (normally, by an exception of the body, by a failing engine behind it, by a '
            'failing check, nested in one another) on the compiler and on an engine inside the chain; the chain of engines and the engine count of '
            'every path are compared with those before.')
