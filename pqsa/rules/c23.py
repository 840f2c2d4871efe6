"""C23: a run leaves nothing behind in a hardware backend."""
from .. import hwsem
from ..client import Client, clean, trace
from ..hwsem import DEVICES, HEAD, STUBS
from ..values import Exc, K
from .c21 import LOC
from .c22 import COUNTING, plain

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every hardware backend on histories of runs (successful, failing at each step of the protocol, repeated flushes); the last run is '
             'compared with the same run on a fresh backend: circuit, number of shots, registered results, reported probabilities')
SRC = COUNTING + '''
def gates(eng, q, spec):
    for k, i in enumerate(spec[0]):
        eng.receive([Command(eng, Rx(0.25 * (k + 1)), ([q[i]],))])
    for i in spec[1]:
        Measure | q[i]


def run(eng, q, spec, service, between):
    service.outcomes = spec[2]
    service.polls = spec[3]
    service.asked = 0
    service.status = spec[4]
    service.fail = spec[5]
    gates(eng, q, spec)
    if between:
        try:
            probe('early', eng.backend.get_probabilities([q[spec[1][0]]]))
        except RuntimeError:
            probe('none')
    try:
        eng.flush()
        probe('done')
    except Exception as e:
        probe('failed')


def tell(eng, q, spec):
    for i in spec[1]:
        try:
            probe('read', i, int(q[i]))
        except NotYetMeasuredError:
            probe('unread', i)
    for reg in (spec[1], spec[1][::-1], spec[1][:1]):
        try:
            probe('prob', eng.backend.get_probabilities([q[i] for i in reg]))
        except RuntimeError:
            probe('none')


def client():
    last = %(last)s
    perm = %(perm)s
    service = %(service)s()
    eng = CountingEngine(backend=%(backend)s, engine_list=[PermutingMapper(perm)], verbose=True)
    q = eng.allocate_qureg(4)
    for spec in %(history)s:
        run(eng, q, spec, service, False)
    probe('start')
    if %(again)s:
        eng.flush()
        probe('end')
        return
    run(eng, q, last, service, True)
    tell(eng, q, last)
    probe('fresh')
    service2 = %(service)s()
    eng2 = CountingEngine(backend=%(backend)s, engine_list=[PermutingMapper(perm)], verbose=True)
    q2 = eng2.allocate_qureg(4)
    run(eng2, q2, last, service2, True)
    tell(eng2, q2, last)
    probe('end')
'''
O1 = '[({0: 1, 1: 1, 2: 1, 3: 1}, 1.0)]'
O2 = '[({0: 1, 1: 0, 2: 1}, 0.25), ({1: 1, 3: 1}, 0.75)]'
A = f'([0, 1, 2], [0, 2], {O1}, 1, None, None)'
B = f'([3, 1], [1, 3], {O2}, 1, None, None)'
C_ = f'([2], [2, 3, 1], {O2}, 1, None, None)'
ALLQ = f'([0, 1, 2, 3], [3, 2, 1, 0], {O1}, 1, None, None)'
SILENT = f'([0, 1], [], {O1}, 1, None, None)'
FAIL = [('login refused', "([0, 1, 2], [0, 2], %s, 1, None, ('login', HTTPError('no')))"), ('submission refused', "([0, 1, 2], [0, 2], %s, 1, None, ('submit', HTTPError('no')))"),
        ('submission breaks', "([0, 1, 2], [0, 2], %s, 1, None, ('submit', KeyError('x')))"), ('poll breaks', "([0, 1, 2], [0, 2], %s, 1, None, ('poll', HTTPError('no')))"),
        ('timeout', '([0, 1, 2], [0, 2], %s, 50, None, None)'), ('job failed', "([0, 1, 2], [0, 2], %s, 1, 'FAILED', None)"),
        ('job cancelled', "([0, 1, 2], [0, 2], %s, 1, 'canceled', None)"), ('all measured, timeout', '([0, 1, 2, 3], [0, 1, 2, 3], %s, 50, None, None)')]
PERM = [2, 0, 3, 1]


def check(chk):
    chk.rule('after success', 'the run after successful runs equals the same run on a fresh backend', 20)
    chk.rule('after failure', 'the run after a failing run equals the same run on a fresh backend', 40)
    chk.rule('again', 'a flush without new commands does not run anything again', 8)
    chk.assume = ['Histories of up to three runs on four qubits behind a fixed mapping; failures at login, submission, polling, by status, and by timeout.']
    for dev in DEVICES:
        good = [('A', [A]), ('A A', [A, A]), ('B', [B]), ('all', [ALLQ]), ('all A', [ALLQ, A]), ('C', [C_]), ('same', [B, B])]
        for name, hist in good:
            for last in (B, C_) if chk.thorough or name in ('A', 'all') else (B,):
                one(chk, 'after success', dev, name, hist, last)
        for name, spec in FAIL:
            for outc in (O1, O2) if chk.thorough else (O1,):
                f = spec % outc
                for name2, hist in ((name, [f]), (name + ' after A', [A, f]), (name + ' then A', [f, A])):
                    one(chk, 'after failure', dev, name2, hist, B)
        for name, hist in (('A', [A]), ('A B', [A, B]), ('failed', [FAIL[1][1] % O1]), ('timeout', [FAIL[4][1] % O1])):
            one(chk, 'again', dev, name, hist, B, again=True)
    return 'Programs drive each backend through a history of runs; what the last run sends, registers and reports is compared with a fresh backend on which only that run happens.'


def one(chk, rule, dev, name, hist, last, again=False):
    if not chk.mine():
        return
    inst = f'{dev}: history {name}, then {"flush" if again else last}'
    loc = chk.prog.cls(LOC[dev], 'projectq.backends').loc()
    with chk.guard(rule, inst):
        src = SRC % {'last': last, 'perm': dict(enumerate(PERM)), 'service': DEVICES[dev][0], 'backend': hwsem.backend(dev), 'again': again,
                     'history': '[' + ', '.join(hist) + ']'}
        C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                return chk.unknown(rule, inst, 'no path')
            for st, v in outs:
                msg = judge(C, st, v, again, ([3, 1], [1, 3]) if last == B else ([2], [2, 3, 1]))
                if msg is None:
                    continue
                if msg[0] == '?' or not all(clean(f) for f in st.facts):
                    return chk.unknown(rule, inst, msg[1])
                return chk.fail(rule, f'{dev}/{name}', loc, f'{inst}: {msg[1]}')
            chk.ok(rule, inst)
        finally:
            C.close()


def judge(C, st, v, again, last):
    tr = trace(st)
    if tr is None:
        return '?', 'loop of unknown length'
    if isinstance(v, Exc):
        return '!', f'raises {v.name} at {v.loc}'
    parts, cur = {}, None
    for x in tr:
        if x[0] != 'probe':
            continue
        a = []
        for y in x[3].args:
            try:
                a.append(C.I.pyval(st, y))
            except Exception:
                a.append(str(y))
        if a[0] in ('start', 'fresh', 'end'):
            cur = parts.setdefault(a[0], [])
        elif cur is not None and a[0] not in ('asks', 'token', 'waits'):
            if a[0] == 'upload' and len(a) > 3:
                used = [PERM[i] for part in last[:2] for i in part]
                if not isinstance(a[3], int) or a[3] <= max(used):
                    return '!', f'a register of {a[3]} qubits is requested, but locations {sorted(set(used))} are used'
                del a[3]
            cur.append(a)
    if 'end' not in parts:
        return '?', 'the program does not reach its end'
    used = parts['start']
    if again:
        return ('!', f'the second flush does {used[0]}') if used else None
    fresh = parts['fresh']
    if not any(a[0] == 'upload' for a in fresh) or not any(a[0] == 'set' for a in fresh):
        return '?', f'a fresh backend does not run: {fresh}'
    for i in range(max(len(used), len(fresh))):
        x = used[i] if i < len(used) else 'nothing'
        y = fresh[i] if i < len(fresh) else 'nothing'
        if x != y:
            return '!', f'the used backend does {x} where a fresh one does {y}'
    return None
