"""C24: remote clients poll boundedly, restore the interrupt handler on every way out and keep credentials quiet."""
from .. import hwsem
from ..client import Client, clean, trace
from ..hwsem import DEVICES, HEAD, STUBS
from ..values import Exc, walk
from .c21 import LOC
from .c23 import O1

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the remote clients against models of the services, of time and of signal: number of polls, interrupt handler at every exit, error '
             'messages and printed text are collected along every path')
SRC = '''
ticks = []


def mine(*args):
    pass


def on_sleep(seconds):
    ticks.append(seconds)
    probe('sleep', seconds)
    if len(ticks) == %(interrupt)s:
        signal.getsignal(signal.SIGINT)(signal.SIGINT, None)


def client():
    service = %(service)s(%(outcomes)s, %(polls)s, %(status)s, %(fail)s)
    service.ids = [0, 2]
    service.measured = [2, 3]
    service.arn = 'arn:' + %(arn)s
    signal.signal(signal.SIGINT, %(handler)s)
    time.sleepers.append(on_sleep)
    backend = %(backend)s
    eng = MainEngine(backend=backend, engine_list=[PermutingMapper({0: 2, 1: 0, 2: 3, 3: 1})], verbose=True)
    q = eng.allocate_qureg(4)
    for i in (0, 1, 2, 3):
        eng.receive([Command(eng, Rx(0.25), ([q[i]],))])
    Measure | q[0]
    Measure | q[2]
    try:
        eng.flush()
        probe('done')
    except Exception as e:
        probe('failed', str(e))
    except KeyboardInterrupt:
        probe('interrupted')
    probe('handler', signal.getsignal(signal.SIGINT) == %(handler)s)
'''
SHOW = '''
def client():
    service = %(service)s()
    %(module)s.show_devices(%(args)s)
    probe('done')
'''
CLIENTS = {'IBM': 'IBMBackend', 'AQT': 'AQTBackend', 'IonQ': 'IonQBackend', 'AWS IonQ Device': 'AWSBraketBackend', 'AWS SV1': 'AWSBraketBackend',
           'Azure IonQ': 'AzureQuantumBackend', 'Azure Quantinuum': 'AzureQuantumBackend'}
TIMED = {'Azure IonQ', 'Azure Quantinuum'}  # the service library waits, not the client


def check(chk):
    chk.rule('bound', 'the number of polls never exceeds the number of retries and a job that does not finish is reported as an error', 20)
    chk.rule('handler', 'the interrupt handler of the caller is back in place on every way out', 40)
    chk.rule('interrupt', 'an interrupt while waiting leads to an error naming the job', 10)
    chk.rule('quiet', 'no credential is printed or put in an error unless verbose', 40)
    chk.assume = ['time.sleep is where an interrupt arrives; requests fail by raising an exception; a job identifier is any string.']
    for dev in CLIENTS:
        for how in ('run', 'retrieve'):
            for n in (1, 2, 4, 65):
                for polls in sorted({0, n - 1, n, n + 3, 1}):
                    if n == 65 and (polls < 60 or dev == 'AWS SV1'):
                        continue
                    one(chk, dev, how, n, polls)
            for status in ("'FAILED'", "'ERROR'", "'CANCELLED'", "'failed'", "'canceled'", "'anything'"):
                one(chk, dev, how, 4, 2, status=status)
            for step in ('login', 'submit', 'poll'):
                for e in ("HTTPError('no')", "KeyError('x')", "RequestException('r')", 'KeyboardInterrupt()', "ValueError('v')"):
                    one(chk, dev, how, 4, 2, fail=f"('{step}', {e})")
            if dev not in TIMED:
                for k in (1, 2, 3) if chk.thorough else (1, 3):
                    one(chk, dev, how, 4, 9, interrupt=k)
            for h in ('signal.SIG_IGN', 'signal.SIG_DFL'):
                one(chk, dev, how, 4, 2, handler=h)
                one(chk, dev, how, 2, 9, handler=h)
                one(chk, dev, how, 4, 2, fail="('poll', HTTPError('no'))", handler=h)
            if how == 'run':
                one(chk, dev, how, 3, 1, token='None')
    return ('Each backend runs or retrieves a job which finishes after a given number of polls, fails, hangs or is interrupted; polls, handlers, messages and printed text are '
            'read off the paths of the analysis.')


def one(chk, dev, how, n, polls, status='None', fail='None', interrupt=-1, token="'secret-token'", handler='mine'):
    if not chk.mine():
        return
    inst = f'{dev}: {how}, {n} retries, finished after {polls} polls' + (f', status {status}' if status != 'None' else '') + (f', fails at {fail}' if fail != 'None' else '') + \
        (f', interrupted at sleep {interrupt}' if interrupt > 0 else '') + (', token asked for' if token == 'None' else '') + (f', interrupts handled by {handler}' if handler != 'mine' else '')
    loc = chk.prog.cls(LOC[dev], 'projectq.backends').loc()
    with chk.guard('bound', inst):
        b = hwsem.backend(dev, retries=n, token=token)
        if how == 'retrieve':
            job = "'arn:aws:braket:us-east-1:1:job-17'" if dev.startswith('AWS') else "'job-17'"
            b = b[:-1] + f', retrieve_execution={job})'
        src = SRC % {'service': DEVICES[dev][0], 'outcomes': O1, 'polls': polls, 'status': status, 'fail': fail, 'interrupt': interrupt, 'handler': handler, 'backend': b,
                     'arn': repr(dev.replace('AWS ', ''))}
        C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS, prints=True)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                return chk.unknown('bound', inst, 'no path')
            for st, v in outs:
                got = judge(C, dev, st, v, n, polls, status, fail, interrupt)
                if got is None:
                    continue
                rule, msg = got
                if rule == '?' or not all(clean(f) for f in st.facts):
                    return chk.unknown('bound', inst, msg)
                return chk.fail(rule, f'{dev}/{how}' + (f'/{fail}' if fail != 'None' else '') + ('/interrupt' if interrupt > 0 else ''), loc, f'{inst}: {msg}')
            chk.ok('bound', inst)
            chk.ok('handler', inst)
            chk.ok('quiet', inst)
            if interrupt > 0:
                chk.ok('interrupt', inst)
        finally:
            C.close()


def judge(C, dev, st, v, n, polls, status, fail, interrupt):
    tr = trace(st)
    if tr is None:
        return '?', 'loop of unknown length'
    asks, end, text, handler, waits = 0, None, None, None, None
    for x in tr:
        if x[0] != 'probe':
            continue
        a = x[3].args
        what = C.I.pyval(st, x[1][0])
        if what == 'print' or what == 'failed':
            if secret(x[1]):
                return 'quiet', f'a credential is {"printed" if what == "print" else "part of an error message"}: {x[1][1:]} ({x[3].loc})'
        if what == 'asks':
            asks += 1
        elif what == 'waits':
            waits = C.I.pyval(st, a[2])
        elif what in ('done', 'failed', 'interrupted'):
            end = what
            text = repr(x[1][1:])
        elif what == 'handler':
            handler = C.I.pyval(st, a[1])
    if isinstance(v, Exc):
        return 'bound', f'raises {v.name} at {v.loc}'
    if end is None:
        return '?', 'the program does not reach its end'
    if handler is not True:
        return 'handler', f'after {end} the interrupt handler is not the one of the caller'
    if asks > n:
        return 'bound', f'the service is asked {asks} times although {n} retries were requested'
    if interrupt > 0:
        if end != 'failed':
            return 'interrupt', f'the run ends as {end}'
        if 'job-17' not in text:
            return 'interrupt', f'the error does not name the job: {text}'
        return None
    if dev in TIMED:
        if waits is not None and waits != 3 * n:
            return 'bound', f'waits {waits} seconds instead of {n} times 3'
        if polls > 3 * n and end == 'done':
            return 'bound', 'the job did not finish but no error is reported'
        return None
    if fail == 'None' and polls >= n and end == 'done':
        return 'bound', 'the job did not finish but no error is reported'
    if fail == 'None' and status == 'None' and polls < n and end != 'done':
        return 'bound', f'the job finished after {polls} polls but the run ends as {end} {text}'
    return None


def secret(v):
    for x in v if isinstance(v, tuple) else (v,):
        if 'secret' in repr(x):
            return True
    return False
