"""C15: qubit handles: unique ids, one deallocation, no stale results."""
import itertools

from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of all short allocation/deletion/measurement histories over the real engine classes'


def history(ops, dirty):
    """Client text and expected trace for a history of operations."""
    src, want, live, nid, val = [], [], [], 0, {}
    for k, op in enumerate(ops):
        if op in 'AD':
            src.append(f'q{nid} = eng.allocate_qubit({"dirty=True" if op == "D" else ""})[0]')
            tag = ' tags DirtyQubitTag' if op == 'D' and dirty else ''
            want.append(f'Allocate {nid}{tag}')
            live.append((nid, tag))
            nid += 1
        elif op == 'R':
            src.append(f'q{nid}, q{nid + 1} = eng.allocate_qureg(2)')
            want += [f'Allocate {nid}', f'Allocate {nid + 1}']
            live += [(nid, ''), (nid + 1, '')]
            nid += 2
        elif op in 'XY':
            if not live:
                return None
            i, tag = live.pop(0 if op == 'X' else -1)
            src += [f'q{i}.__del__()', f'probe(q{i}.id, q{i} in eng.active_qubits)']
            want += [f'Deallocate {i}{tag}', 'probe -1 False']
        elif op == 'E':
            if not live:
                return None
            i, tag = live.pop(0)
            src += [f'eng.deallocate_qubit(q{i})', f'probe(q{i}.id)', f'q{i}.__del__()']
            want += [f'Deallocate {i}{tag}', 'probe -1']
        elif op == 'M':
            if not live:
                return None
            i = live[-1][0]
            src += [f'eng.set_measurement_result(q{i}, {k % 2})', f'probe(int(q{i}), bool(q{i}))']
            want.append(f'probe {k % 2} {bool(k % 2)}')
            val[i] = k % 2
    # every live handle that has not been measured has no value; handles keep their ids
    for i, _ in live:
        src.append(f'try:\n        probe(q{i}.id, int(q{i}))\n    except NotYetMeasuredError:\n        probe(q{i}.id, "none")')
        want.append(f'probe {i} {val[i]}' if i in val else f"probe {i} 'none'")
    src.append('eng.flush(deallocate_qubits=True)')
    end = [f'Deallocate {i}{t}' for i, t in live]
    src.append('probe(len(eng.active_qubits))')
    return '    ' + '\n    '.join(src) + '\n', want, end


def check(chk):
    loc = chk.prog.cls('Qubit', 'projectq.types._qubit').loc()
    chk.rule('history', 'ids are never reused, every qubit is announced once and taken back once, unmeasured qubits have no value', 40)
    chk.rule('handle', 'handles: deletion is idempotent, copies are the same handle, a taken back handle equals nothing else', 8)
    chk.rule('reading', 'a value is only read for a qubit that was measured', 6)
    chk.rule('engines', 'qubits allocated through any engine of the pipeline share the numbering and enter the pipeline behind that engine', 2)
    ops = 'ADRXYEM'
    n = 4 if chk.thorough else 3
    hists = [h for k in range(1, n + 1) for h in itertools.product(ops, repeat=k) if h[0] in 'ADR' and h[-1] not in 'ADR' or len(h) <= 2]
    for h in hists:
        for dirty in (False, True):
            if dirty and 'D' not in h or not dirty and 'D' in h and len(h) > 2:
                continue
            r = history(h, dirty)
            if r is None:
                continue
            src, want, end = r
            head = f'\nfrom projectq.cengines._main import NotYetMeasuredError\ndef client():\n    eng = main_engine({"DirtyRecorder()" if dirty else "Recorder()"})\n'
            expect(chk, 'history', f'{"".join(h)}{" (dirty qubits supported)" if dirty else ""}', head + src, endmatch(want, end),
                   'BasicEngine/Qubit', loc)
    head = '\nimport copy\nfrom projectq.cengines._main import NotYetMeasuredError\ndef client():\n    eng = main_engine(Recorder())\n'
    T = {
        'deleting twice': ('q = eng.allocate_qubit()[0]\n    q.__del__()\n    q.__del__()', ['Allocate 0', 'Deallocate 0']),
        'deallocating twice': ('''q = eng.allocate_qubit()[0]
    eng.deallocate_qubit(q)
    try:
        eng.deallocate_qubit(q)
    except ValueError:
        probe('refused')''', ['Allocate 0', 'Deallocate 0', "probe 'refused'"]),
        'copy': ('q = eng.allocate_qubit()\n    probe(copy.copy(q[0]) is q[0], copy.deepcopy(q[0]) is q[0], copy.deepcopy(q)[0] is q[0])',
                 ['Allocate 0', 'probe True True True']),
        'equality': ('''q = eng.allocate_qureg(2)
    w = WeakQubitRef(eng, 0)
    probe(q[0] == q[0], q[0] == w, w == q[0], q[0] == q[1], q[1] == w, q[0] == 0, q[0] != q[1])''',
                     ['Allocate 0', 'Allocate 1', 'probe True True True False False False True']),
        'equality across engines': ('''other = main_engine(Recorder())
    probe(WeakQubitRef(eng, 3) == WeakQubitRef(other, 3), WeakQubitRef(eng, 3) == WeakQubitRef(eng, 3))''', ['probe False True']),
        'equality of taken back handles': ('''q = eng.allocate_qureg(3)
    q[0].__del__()
    q[1].__del__()
    probe(q[0] == q[1], q[0] == q[0], q[0] == q[2], q[2] == q[0], q[0] == WeakQubitRef(eng, -1), q[0] == WeakQubitRef(eng, 0))''',
                                           ['Allocate 0', 'Allocate 1', 'Allocate 2', 'Deallocate 0', 'Deallocate 1', 'probe False True False False False False']),
        'sets of handles': ('''q = eng.allocate_qureg(2)
    s = {q[0], q[1], WeakQubitRef(eng, 0)}
    probe(len(s), q[0] in s, WeakQubitRef(eng, 1) in s, WeakQubitRef(eng, 2) in s)''',
                            ['Allocate 0', 'Allocate 1', 'probe 2 True True False']),
        'register of n qubits': ('q = eng.allocate_qureg(4)\n    r = eng.allocate_qureg(0)\n    probe(len(q), len(r), [b.id for b in q])',
                                 ['Allocate 0', 'Allocate 1', 'Allocate 2', 'Allocate 3', 'probe 4 0 [0, 1, 2, 3]']),
        'register text': ('''r = Qureg([WeakQubitRef(eng, i) for i in (0, 1, 2, 5, 7, 8)])
    probe(str(r), str(Qureg([])), str(Qureg([WeakQubitRef(eng, 4)])), str(r[0]))''',
                          ["probe 'Qureg[0-2, 5, 7-8]' 'Qureg[]' 'Qureg[4]' '0'"]),
        'engine of a register': ('''other = main_engine(Recorder())
    r = Qureg([WeakQubitRef(eng, 0), WeakQubitRef(eng, 1)])
    probe(r.engine is eng)
    r.engine = other
    probe(r.engine is other, r[0].engine is other, r[1].engine is other)''', ['probe True', 'probe True True True']),
        'deallocation after use as dirty qubit': ('''q = eng.allocate_qubit(dirty=True)[0]
    q.__del__()
    p = eng.allocate_qubit()[0]
    p.__del__()''', ['Allocate 0', 'Deallocate 0', 'Allocate 1', 'Deallocate 1']),
        'dirty marking is per qubit': ('''eng2 = main_engine(DirtyRecorder())
    p = eng2.allocate_qubit()[0]
    q = eng2.allocate_qubit(dirty=True)[0]
    r = eng2.allocate_qubit()[0]
    p.__del__()
    r.__del__()
    q.__del__()''', ['Allocate 0', 'Allocate 1 tags DirtyQubitTag', 'Allocate 2', 'Deallocate 0', 'Deallocate 2', 'Deallocate 1 tags DirtyQubitTag']),
    }
    for k, (src, want) in T.items():
        expect(chk, 'handle', k, head + '    ' + src + '\n', want, f'Qubit ({k})', loc)
    R = {
        'one measured of two': ('''q = eng.allocate_qureg(2)
    eng.set_measurement_result(q[0], 1)
    probe(int(q[0]), bool(q[0]))
    try:
        probe(int(q[1]))
    except NotYetMeasuredError:
        probe('none')''', ["probe 1 True", "probe 'none'"]),
        'value through a weak handle': ('''q = eng.allocate_qubit()
    eng.set_measurement_result(WeakQubitRef(eng, q[0].id), True)
    probe(int(q), bool(q), int(WeakQubitRef(eng, 0)), eng.get_measurement_result(q[0]))''', ['probe 1 True 1 True']),
        'taken back handle': ('''q = eng.allocate_qubit()
    eng.set_measurement_result(q[0], True)
    q[0].__del__()
    try:
        probe(int(q))
    except NotYetMeasuredError:
        probe('none')''', ['Deallocate 0', "probe 'none'"]),
        'new qubit after a measured one': ('''q = eng.allocate_qubit()
    eng.set_measurement_result(q[0], True)
    q[0].__del__()
    p = eng.allocate_qubit()
    try:
        probe(int(p))
    except NotYetMeasuredError:
        probe('none')''', ['Deallocate 0', 'Allocate 1', "probe 'none'"]),
        'measured again': ('''q = eng.allocate_qubit()
    eng.set_measurement_result(q[0], True)
    probe(int(q))
    eng.set_measurement_result(q[0], 0)
    probe(int(q), bool(q))''', ['probe 1', 'probe 0 False']),
        'register of two': ('''q = eng.allocate_qureg(2)
    eng.set_measurement_result(q[0], True)
    eng.set_measurement_result(q[1], True)
    for f in (int, bool):
        try:
            probe(f(q))
        except Exception:
            probe('refused')''', ['Allocate 1', "probe 'refused'", "probe 'refused'"]),
        'two compilers': ('''other = main_engine(Recorder())
    q = eng.allocate_qubit()
    p = other.allocate_qubit()
    eng.set_measurement_result(q[0], True)
    probe(int(q))
    try:
        probe(int(p))
    except NotYetMeasuredError:
        probe('none')''', ['Allocate 0', 'probe 1', "probe 'none'"]),
    }
    for k, (src, want) in R.items():
        expect(chk, 'reading', k, head + '    ' + src + '\n', want if want[0].startswith('Alloc') and want[0] != 'Allocate 0' and False else lastmatch(want),
               f'MainEngine ({k})', loc)
    E = {
        'first, middle and last engine': ('''from projectq.cengines import TagRemover
    a, b = TagRemover(), TagRemover()
    eng = main_engine(Recorder(), [a, b])
    p = [e.allocate_qubit()[0] for e in (eng, a, b, eng)]
    probe([x.id for x in p], p[1].engine is a)
    for x in p:
        x.__del__()''', ['Allocate 0', 'Allocate 1', 'Allocate 2', 'Allocate 3', 'probe [0, 1, 2, 3] True',
                         'Deallocate 0', 'Deallocate 1', 'Deallocate 2', 'Deallocate 3']),
        'all deallocated at the end': ('''from projectq.cengines import TagRemover
    a = TagRemover()
    eng = main_engine(Recorder(), [a])
    p = [e.allocate_qubit()[0] for e in (eng, a, eng)]
    p[0].__del__()
    eng.flush(deallocate_qubits=True)
    probe([x.id for x in p])''', ['Allocate 0', 'Allocate 1', 'Allocate 2', 'Deallocate 0', 'Deallocate 1', 'Deallocate 2', 'FlushGate -1', 'probe [-1, -1, -1]']),
    }
    for k, (src, want) in E.items():
        expect(chk, 'engines', k, head + '    ' + src + '\n', anyorder(want), f'BasicEngine ({k})', loc)
    S = {
        'taken back by uncompute': ('''with Compute(eng):
        a = eng.allocate_qureg(2)
        UserGate(1) | a[0]
    probe([x.id for x in a])
    Uncompute(eng)
    probe([x.id for x in a], a[0] in eng.active_qubits, a[1] in eng.active_qubits)
    a[0].__del__()
    a[1].__del__()
    eng.flush(deallocate_qubits=True)''', [0, 1]),
        'taken back by uncompute, with a local qubit': ('''with Compute(eng):
        a = eng.allocate_qureg(2)
        l = eng.allocate_qubit()
        CNOT | (l, a[0])
        l[0].__del__()
    Uncompute(eng)
    probe([x.id for x in a], l[0].id)
    a[0].__del__()
    a[1].__del__()
    l[0].__del__()
    eng.flush(deallocate_qubits=True)''', [0, 1, 2, 3]),
        'taken back by uncompute, with two local qubits': ('''with Compute(eng):
        l = eng.allocate_qureg(2)
        a = eng.allocate_qubit()
        CNOT | (l[1], a)
        l[1].__del__()
        l[0].__del__()
    b = eng.allocate_qubit()
    Uncompute(eng)
    probe(a[0].id, l[0].id, l[1].id, b[0].id)
    a[0].__del__()
    eng.flush(deallocate_qubits=True)''', [0, 1, 2, 3, 4, 5]),
        'taken back by custom uncompute': ('''with Compute(eng):
        a = eng.allocate_qubit()
    with CustomUncompute(eng):
        a[0].__del__()
    eng.flush(deallocate_qubits=True)''', [0]),
        'local to a dagger section': ('''with Dagger(eng):
        a = eng.allocate_qubit()
        a[0].__del__()
    b = eng.allocate_qubit()
    eng.flush(deallocate_qubits=True)''', [0, 1]),
        'local to a loop': ('''with Loop(eng, 3):
        a = eng.allocate_qubit()
        UserGate(1) | a
        a[0].__del__()
    b = eng.allocate_qubit()
    eng.flush(deallocate_qubits=True)''', None),
        'compute in a loop': ('''with Loop(eng, 2):
        with Compute(eng):
            a = eng.allocate_qubit()
            l = eng.allocate_qubit()
            l[0].__del__()
        Uncompute(eng)
    eng.flush(deallocate_qubits=True)''', None),
        'section in a section': ('''with Compute(eng):
        with Compute(eng):
            a = eng.allocate_qubit()
            UserGate(1) | a
        Uncompute(eng)
        b = eng.allocate_qubit()
    Uncompute(eng)
    probe(a[0].id, b[0].id)
    eng.flush(deallocate_qubits=True)''', None),
    }
    chk.rule('sections', 'qubits of meta sections are announced once and taken back once, their handles become invalid', 4)
    for k, (src, ids) in S.items():
        expect(chk, 'sections', k, head + '    ' + src + '\n', balanced(ids), f'meta sections ({k})', loc)
    chk.assume = [f'Histories of up to {n} operations; garbage collection is modelled by calling __del__.']
    return ('Client programs run every short history of allocations (clean, dirty, registers), deletions, explicit deallocations and measurement results; the '
            'trace at the last engine and the values of the handles must be the documented ones on every path.')


def anyorder(want):
    """The deallocations in front of a flush may come in any order."""
    def f(got):
        g, w = norm(got), norm(want)
        from ..client import diff
        return None if g == w else diff(g, w)
    return f


def norm(seq):
    out, run = [], []
    for x in seq:
        if x.startswith('Deallocate'):
            run.append(x)
        else:
            out += sorted(run) + [x]
            run = []
    return out + sorted(run)


def endmatch(want, end):
    def f(got):
        from ..client import diff
        n = len(want)
        if got[:n] != want:
            return diff(got[:n], want)
        tail = got[n:]
        exp = sorted(end) + ['FlushGate -1', 'probe 0']
        tail = norm(tail)
        return None if tail == exp else diff(tail, exp)
    return f


def lastmatch(want):
    def f(got):
        return None if got[-len(want):] == want else f'{got} instead of {want}'
    return f


def balanced(ids):
    """Every id is allocated once, then deallocated once; used only in between; handles end with id -1."""
    def f(got):
        seen, live = set(), set()
        for x in got:
            w = x.split(' tags ')[0].split(' ')
            if w[0] == 'raise':
                return x
            if w[0] == 'Allocate':
                if w[1] in seen:
                    return f'qubit {w[1]} is allocated twice: {got}'
                seen.add(w[1])
                live.add(w[1])
            elif w[0] == 'Deallocate':
                if w[1] not in live:
                    return f'qubit {w[1]} is deallocated while it is not allocated: {got}'
                live.discard(w[1])
            elif w[0] == 'UserGate(num=1)' or w[0] == 'UserGate(num=-1)':
                if w[1] not in live:
                    return f'qubit {w[1]} is used while it is not allocated: {got}'
        if live:
            return f'qubits {sorted(live)} are never deallocated'
        if ids is not None and seen != {str(i) for i in ids}:
            return f'allocated qubits {sorted(seen)} instead of {ids}'
        return None if got and got[-1].startswith('FlushGate') else f'{got} does not end with the flush'
    return f
