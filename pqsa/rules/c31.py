"""C31: the main engine wires all engines in order and cleans up at the end."""
from ..client import expect
from ..values import ExtV, FALSE, K, NONE, TRUE

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of construction, flush, deletion and shutdown of the main engine for engine lists up to the bound'

HEAD = '''
from projectq.cengines._main import UnsupportedEngineError
from projectq.cengines import BasicMapperEngine, BasicEngine, MainEngine


class Pass(BasicEngine):
    def receive(self, command_list):
        for cmd in command_list:
            probe(self.num, cmd.gate.__class__.__name__)
        self.send(command_list)


class Mapper(BasicMapperEngine):
    def receive(self, command_list):
        self.send(command_list)


class Two(BasicMapperEngine):
    def receive(self, command_list):
        self.send(command_list)


class NoEngine:
    def receive(self, command_list):
        pass


def run_atexit():
    pass


def client():
'''


def hooks(failed=False):
    def register(I, st, name, args, kw, node):
        st.notes['atexit'] = st.notes.get('atexit', ()) + ((args[0], tuple(args[1:])),)
        return [(st, args[0])]

    def unregister(I, st, name, args, kw, node):
        st.notes['atexit'] = tuple(x for x in st.notes.get('atexit', ()) if x[0] != args[0])
        return [(st, NONE)]

    def run(I, st, fv, args, kw, node):
        cur = [(st, NONE)]
        for f, a in reversed(st.notes.get('atexit', ())):
            nxt = []
            for s, v in cur:
                nxt += I.call_value(s, f, list(a), {}, node)
            cur = nxt
        return [(s, v) for s, v in cur]

    def hasattr_(I, st, name, args, kw, node):
        if isinstance(args[1], K) and args[1].v == 'last_type':
            return [(st, TRUE if failed else FALSE)]
        return None
    return {'ext:atexit.register': register, 'ext:atexit.unregister': unregister, 'run_atexit': run, 'ext:builtins.hasattr': hasattr_,
            'ext:hasattr': hasattr_}


def check(chk):
    P = chk.prog
    loc = P.cls('MainEngine').loc()
    chk.rule('wiring', 'every engine is followed by the next one of the list, the last one by the backend, and knows the compiler', 4)
    chk.rule('order', 'a command passes every engine exactly once, in the order of the list', 4)
    chk.rule('rejected', 'malformed engine lists are rejected', 6)
    chk.rule('flush', 'a flush sends exactly one flush command; deallocating first takes back every live qubit once', 6)
    chk.rule('shutdown', 'deletion and interpreter exit take back all live qubits and flush, except after a failure', 4)
    chk.rule('errors', 'an exception of an engine reaches the caller with its type', 3)
    h = {'hooks': hooks()}
    for n in range(0, 5 if chk.thorough else 4):
        for withmap in ([None] + list(range(n))):
            lst = '[' + ', '.join('Mapper()' if i == withmap else 'Pass()' for i in range(n)) + ']'
            expect(chk, 'wiring', f'{n} engines' + ('' if withmap is None else f', mapper at {withmap}'), HEAD + f'''
    es = {lst}
    given = list(es)
    b = Recorder()
    eng = MainEngine(backend=b, engine_list=es, verbose=True)
    chain = []
    e = eng.next_engine
    while e is not None:
        chain.append(e)
        e = e.next_engine
    probe(len(chain), len(es), eng.n_engines)
    for x, y in zip(chain, given + [b]):
        probe(x is y, x.main_engine is eng, x.is_last_engine == (x is b))
    probe(eng.backend is b, eng.main_engine is eng, eng.mapper is {'None' if withmap is None else f'es[{withmap}]'}, eng.is_last_engine)
''', [f'probe {n + 1} {n} {n + 1}'] + ['probe True True True'] * (n + 1) + ['probe True True True False'], 'MainEngine.__init__', loc, **h)
        expect(chk, 'order', f'{n} engines', HEAD + f'''
    es = [Pass() for i in range({n})]
    for i, e in enumerate(es):
        e.num = i
    eng = MainEngine(backend=Recorder(), engine_list=es, verbose=True)
    q = eng.allocate_qubit()
    UserGate(1) | q
    eng.flush()
    q[0].__del__()
''', [x for c, ln in (('AllocateQubitGate', 'Allocate 0'), ('UserGate', 'UserGate(num=1) 0'), ('FlushGate', 'FlushGate -1'), ('DeallocateQubitGate', 'Deallocate 0'))
            for x in [f"probe {i} '{c}'" for i in range(n)] + [ln]], 'MainEngine.send', loc, **h)
    expect(chk, 'wiring', 'engine list left alone, used for one compiler', HEAD + '''
    es = [Pass()]
    MainEngine(backend=Recorder(), engine_list=es, verbose=True)
    probe(len(es))
''', ['probe 1'], 'MainEngine.__init__', loc, **h)
    for le, bk in (('[y, x]', 'b'), ('[x, y]', 'b'), ('[y, Pass(), x]', 'Recorder()'), ('[x]', 'b'), ('[]', 'b')):
        expect(chk, 'wiring', f'engines of an earlier compiler used again: {le} before {bk}', HEAD + f'''
    x, y, b = Pass(), Pass(), Recorder()
    old = MainEngine(backend=b, engine_list=[x, y], verbose=True)
    es = {le}
    last = {bk}
    eng = MainEngine(backend=last, engine_list=list(es), verbose=True)
    chain = []
    e = eng.next_engine
    while e is not None and len(chain) < 6:
        chain.append(e)
        e = e.next_engine
    probe(len(chain))
    for e, want in zip(chain, es + [last]):
        probe(e is want, e.main_engine is eng, e.is_last_engine == (e is last))
''', [f'probe {le.count(",") + (le != "[]") + 1}'] + ['probe True True True'] * (le.count(",") + (le != "[]") + 1), 'MainEngine.__init__', loc, **h)
    expect(chk, 'wiring', 'two compilers are independent', HEAD + '''
    a, b = MainEngine(Recorder(), [], True), MainEngine(Recorder(), [], True)
    p, q = a.allocate_qubit(), b.allocate_qubit()
    probe(p[0].id, q[0].id, len(a.active_qubits), len(b.active_qubits), p[0].engine is a, q[0].engine is b)
''', ['Allocate 0', 'Allocate 0', 'probe 0 0 1 1 True True'], 'MainEngine.__init__', loc, **h)
    BAD = {
        'backend is a class': 'MainEngine(Recorder, [])', 'backend is no engine': 'MainEngine(NoEngine(), [])',
        'element is a class': 'MainEngine(Recorder(), [Pass])', 'element is no engine': 'MainEngine(Recorder(), [Pass(), NoEngine()])',
        'tuple': 'MainEngine(Recorder(), (Pass(),))', 'single engine': 'MainEngine(Recorder(), Pass())',
        'two mappers': 'MainEngine(Recorder(), [Mapper(), Pass(), Mapper()])', 'two kinds of mappers': 'MainEngine(Recorder(), [Mapper(), Two()])',
        'same engine twice': 'MainEngine(Recorder(), [a, Pass(), a])', 'engine is also the backend': 'MainEngine(a, [Pass(), a])',
        'string': "MainEngine(Recorder(), 'default')",
    }
    for k, ex in BAD.items():
        expect(chk, 'rejected', k, HEAD + f'''
    a = Pass()
    try:
        {ex}
    except UnsupportedEngineError:
        probe('refused')
''', ["probe 'refused'"], f'MainEngine.__init__ ({k})', loc, **h)
    expect(chk, 'rejected', 'equal but different engines are accepted', HEAD + '''
    eng = MainEngine(Recorder(), [TagRemover(), TagRemover(), TagRemover()], True)
    probe(eng.n_engines)
''', ['probe 4'], 'MainEngine.__init__', loc, **h)
    for n in range(0, 4):
        al = 'q = eng.allocate_qureg(%d)' % n
        alloc = [f'Allocate {i}' for i in range(n)]
        expect(chk, 'flush', f'{n} live qubits, plain', HEAD + f'''
    eng = MainEngine(Recorder(), [TagRemover()], True)
    {al}
    eng.flush()
    eng.flush()
    probe(len(eng.active_qubits), [b.id for b in q])
''', alloc + ['FlushGate -1'] * 2 + [f'probe {n} {list(range(n))}'], 'MainEngine.flush', loc, **h)
        expect(chk, 'flush', f'{n} live qubits, deallocating', HEAD + f'''
    eng = MainEngine(Recorder(), [TagRemover()], True)
    {al}
    eng.flush(deallocate_qubits=True)
    probe(len(eng.active_qubits), [b.id for b in q])
    eng.flush(deallocate_qubits=True)
''', dealloc(alloc, n, [f'probe 0 {[-1] * n}', 'FlushGate -1']), 'MainEngine.flush', loc, **h)
        if n:
            D = ' tags DirtyQubitTag'
            expect(chk, 'flush', f'{n} dirty and one clean qubit, deallocating', HEAD + f'''
    eng = MainEngine(DirtyRecorder(), [TagRemover()], True)
    q = [eng.allocate_qubit(dirty=True)[0] for i in range({n})] + [eng.allocate_qubit()[0]]
    eng.flush(deallocate_qubits=True)
    probe(len(eng.active_qubits), [b.id for b in q])
''', dealloc([f'Allocate {i}{D}' for i in range(n)] + [f'Allocate {n}'], n + 1, [f'probe 0 {[-1] * (n + 1)}'], {i: D for i in range(n)}), 'MainEngine.flush', loc, **h)
        for what, call in (('deletion', 'eng.__del__()\n    run_atexit()'), ('exit', 'run_atexit()'), ('flushed and deleted', 'eng.flush(deallocate_qubits=True)\n    eng.__del__()')):
          for le in ('[]', '[TagRemover()]', '[TagRemover(), Mapper(), TagRemover()]'):
            expect(chk, 'shutdown', f'{what}, {n} live qubits, engines {le}', HEAD + f'''
    eng = MainEngine(Recorder(), {le}, True)
    {al}
    {call}
    probe([b.id for b in q])
''', dealloc(alloc, n, (['FlushGate -1'] if 'flushed' in what else []) + [f'probe {[-1] * n}']), 'MainEngine.__del__', loc, **h)
    hf = {'hooks': hooks(True)}
    for n in (1, 2):
        expect(chk, 'shutdown', f'exit after a failure, {n} live qubits', HEAD + f'''
    eng = MainEngine(Recorder(), [TagRemover()], True)
    q = eng.allocate_qureg({n})
    run_atexit()
    probe([b.id for b in q])
    for b in q:
        b.__del__()
''', [f'Allocate {i}' for i in range(n)] + [f'probe {[-1] * n}'], 'MainEngine.__init__', loc, **hf)
        expect(chk, 'shutdown', f'deletion after a failure, {n} live qubits', HEAD + f'''
    eng = MainEngine(Recorder(), [TagRemover()], True)
    q = eng.allocate_qureg({n})
    eng.__del__()
    probe('end')
''', [f'Allocate {i}' for i in range(n)] + ["probe 'end'"], 'MainEngine.__del__', loc, **hf)
    for v in ('True', 'False'):
        for where, args in (('backend', 'Failing(), []'), ('engine', 'Recorder(), [TagRemover(), Failing()]')):
            expect(chk, 'errors', f'{where}, verbose={v}', HEAD + f'''
    eng = MainEngine({args}, {v})
    try:
        eng.allocate_qubit()
    except KeyError:
        probe('KeyError')
    try:
        eng.flush()
    except LookupError:
        probe('LookupError')
''', ["probe 'KeyError'", "probe 'LookupError'"], 'MainEngine.send', loc, **h)
    expect(chk, 'errors', 'nothing is wrong', HEAD + '''
    eng = MainEngine(Recorder(), [], False)
    q = eng.allocate_qubit()
    UserGate(1) | q
''', ['Allocate 0', 'UserGate(num=1) 0'], 'MainEngine.send', loc, **h)
    expect(chk, 'order', 'commands received by the main engine', HEAD + '''
    eng = MainEngine(Recorder(), [], True)
    q = [WeakQubitRef(eng, 50), WeakQubitRef(eng, 51)]
    eng.receive([UserGate(1).generate_command(q[0]), UserGate(2).generate_command(q[1])])
    eng.receive([])
    eng.receive([UserGate(3).generate_command((q[0], q[1]))])
''', ['UserGate(num=1) 50', 'UserGate(num=2) 51', 'UserGate(num=3) 50|51'], 'MainEngine.receive', loc, **h)
    expect(chk, 'order', 'qubit numbers', HEAD + '''
    eng = MainEngine(Recorder(), [], True)
    ids = [eng.get_new_qubit_id() for i in range(5)] + [eng.allocate_qubit()[0].id, eng.get_new_qubit_id()]
    probe(ids)
''', ['Allocate 5', 'probe [0, 1, 2, 3, 4, 5, 6]'], 'MainEngine.get_new_qubit_id', loc, **h)
    chk.assume = ['Engine lists of up to 4 engines; up to 3 live qubits; interpreter exit is modelled by calling the registered exit functions.']
    return 'Client programs build compilers from every kind of engine list, flush them, delete them and leave the interpreter.'


def dealloc(alloc, n, tail, tags={}):
    def f(got):
        want = alloc + [f'Deallocate {i}{tags.get(i, "")}' for i in range(n)] + ['FlushGate -1'] + tail
        m = len(alloc)
        g = got[:m] + sorted(got[m:m + n]) + got[m + n:]
        from ..client import diff
        return None if g == want else diff(g, want)
    return f
