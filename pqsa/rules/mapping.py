"""Programs and device layouts for the mapper checks (C17, C18)."""
import random

from ..mapsem import REPORT, judge, program

IBM = {(0, 1), (1, 0), (1, 2), (1, 3), (1, 4), (2, 1), (2, 3), (2, 4), (3, 1), (3, 4), (4, 3)}


def linear(n, cyclic):
    def near(a, b):
        return abs(a - b) == 1 or cyclic and abs(a - b) == n - 1
    return near


def grid(rows, cols, ids=None):
    back = {v: k for k, v in ids.items()} if ids else None

    def near(a, b):
        if back:
            a, b = back.get(a, -10 ** 6), back.get(b, 10 ** 6)
        (x, y), (u, v) = divmod(a, cols), divmod(b, cols)
        return abs(x - u) + abs(y - v) == 1
    return near


def families(chk, focus, seed):
    P = chk.prog
    rnd = random.Random(seed)
    big = 8 if chk.thorough else 1
    chk.rule('linear', 'LinearMapper, open and cyclic chains', 10)
    chk.rule('grid', 'GridMapper with and without own location numbers', 6)
    chk.rule('ibm5', 'IBM5QubitMapper', 4)
    chk.rule('bounded', 'BoundedQubitMapper', 4)
    ci = P.cls('LinearMapper')
    for k in range(56 * big):
        n = rnd.randint(3, 6)
        cyc = rnd.random() < 0.45
        storage = rnd.choice((1, 2, 3, 5, 8, 1000))
        lines = program(rnd, n, rnd.randint(6, 22), flush=rnd.choice((0.03, 0.1)), more=storage > 2) + REPORT
        judge(chk, 'linear', f'program {k} on a {"cyclic" if cyc else "linear"} chain of {n}, storage {storage}', f'LinearMapper({n}, {cyc}, {storage})', lines,
              linear(n, cyc), 'tags', focus, ci.loc(), 'LinearMapper', limit=n, stubs=('networkx', 'random'))
    ci = P.cls('GridMapper')
    for k in range(32 * big):
        r, c = rnd.choice(((2, 2), (2, 3), (3, 2), (1, 4), (3, 1)))
        storage = rnd.choice((2, 4, 7, 1000))
        ids = None
        if rnd.random() < 0.5:
            ids = dict(zip(range(r * c), rnd.sample(range(3, 3 + 2 * r * c), r * c)))
        lines = program(rnd, min(r * c, 5), rnd.randint(5, 16), flush=rnd.choice((0.03, 0.1)), more=storage > 2) + REPORT
        judge(chk, 'grid', f'program {k} on a {r}x{c} grid, storage {storage}' + (', own numbers' if ids else ''),
              f'GridMapper({r}, {c}, {ids}, storage={storage}, num_optimization_steps={rnd.choice((1, 3))})', lines,
              grid(r, c, ids), 'tags', focus, ci.loc(), 'GridMapper', stubs=('networkx', 'random'))
    ci = P.cls('IBM5QubitMapper')
    for k in range(16 * big):
        n = rnd.randint(2, 5)
        # interactions embedded in the layout after a random relabelling
        perm = rnd.sample(range(5), 5)
        pairs = {frozenset((perm[a], perm[b])) for a, b in IBM}
        lines = program(rnd, n, rnd.randint(4, 12), cnots=True, dealloc=False, flush=0, pairs=pairs) + (['Measure | q[0][0]', 'eng.flush()'] if k % 2 else []) + REPORT
        judge(chk, 'ibm5', f'program {k} on {n} qubits', 'IBM5QubitMapper()', lines, lambda a, b: (a, b) in IBM or (b, a) in IBM, 'order', focus, ci.loc(), 'IBM5QubitMapper', limit=5)
    ci = P.cls('BoundedQubitMapper')
    for k in range(16 * big):
        n = rnd.randint(2, 5)
        lines = program(rnd, n, rnd.randint(5, 20), flush=0.15, more=False) + REPORT
        judge(chk, 'bounded', f'program {k} on {n} qubits', f'BoundedQubitMapper({n + 6})', lines, None, 'tags', focus, ci.loc(), 'BoundedQubitMapper', limit=n + 6)


def fixed_maps(chk):
    P = chk.prog
    rnd = random.Random(170)
    chk.rule('fixed', 'mappers with a mapping given by the user', 6)
    ci, cm = P.cls('BasicMapperEngine'), P.cls('ManualMapper')
    for k in range(64 if chk.thorough else 10):
        n = rnd.randint(2, 5)
        lines = program(rnd, n, rnd.randint(5, 20))
        if k % 2:
            judge(chk, 'fixed', f'ManualMapper, program {k}', 'ManualMapper(shift)', lines, None, 'order', ('map',), cm.loc(), 'ManualMapper', fixed=lambda i: 3 * i + 7)
        else:
            head = ['if mapper is not None:', '    mapper.current_mapping = dict([(i, 40 - i) for i in range(30)])']
            judge(chk, 'fixed', f'BasicMapperEngine, program {k}', 'BasicMapperEngine()', head + lines, None, 'order', ('map',), ci.loc(), 'BasicMapperEngine', fixed=lambda i: 40 - i)
        judge(chk, 'fixed', f'ManualMapper without map, program {k}', 'ManualMapper()', lines, None, 'order', ('map',), cm.loc(), 'ManualMapper', fixed=lambda i: i)
    # locations assigned again after a qubit is gone
    for k in range(24 if chk.thorough else 6):
        n = rnd.randint(2, 3)
        lines = ['q = {}'] + [f'q[{i}] = eng.allocate_qubit()' for i in range(n)]
        for i in range(n, n + 6):
            a, b = rnd.sample(range(i - n, i), 2)
            lines += rnd.sample([f'Measure | q[{a}][0]', f'CNOT | (q[{a}][0], q[{b}][0])', f'UserGate(5) | q[{b}][0]', 'eng.flush()'], 3)
            lines += [f'q[{i - n}][0].__del__()', f'q[{i}] = eng.allocate_qubit()', f'Measure | q[{i}][0]']
        judge(chk, 'fixed', f'ManualMapper reusing {n} locations, program {k}', f'ManualMapper(wrap{n})', lines + ['eng.flush()'], None, 'order', ('map',), cm.loc(), 'ManualMapper',
              fixed=lambda i, n=n: i % n)
        head = ['if mapper is not None:', f'    mapper.current_mapping = dict([(i, i % {n}) for i in range(30)])']
        judge(chk, 'fixed', f'BasicMapperEngine reusing {n} locations, program {k}', 'BasicMapperEngine()', head + lines + ['eng.flush()'], None, 'order', ('map',), ci.loc(),
              'BasicMapperEngine', fixed=lambda i, n=n: i % n)
