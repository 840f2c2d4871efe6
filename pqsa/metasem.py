"""Reference semantics of the meta sections (control, dagger, loop, compute/uncompute) on random nested programs.

A program is a tree of steps; `run` gives the commands it must emit (with names for qubits), `text` the same program as client source.  The
commands found by the analysis are compared up to the choice of ids for newly allocated qubits."""
import random
import re


class Gen:
    def __init__(self, seed, focus, size=7, depth=3, kinds=('control', 'dagger', 'loop', 'compute')):
        self.kinds = list(kinds)
        self.r = random.Random(seed)
        self.focus = focus
        self.n = 0
        self.size = size
        self.depth = depth
        self.used = set()

    def program(self):
        for _ in range(200):
            self.n = 0
            self.used = set()
            self.left = self.size
            p = self.body([f'q[{i}]' for i in range(4)], self.depth, True, [])
            if self.focus in self.used:
                return p
        raise RuntimeError('no program')

    def fresh(self):
        self.n += 1
        return f'a{self.n}'

    def gate(self, names):
        r = self.r
        k = r.randint(1, min(3, len(names)))
        # prefer recently allocated qubits
        pick = []
        pool = list(names)
        while len(pick) < k:
            x = pool[-1] if r.random() < 0.5 else r.choice(pool)
            pick.append(x)
            pool.remove(x)
        r.shuffle(pick)
        nc = r.randint(0, k - 1)
        ctrl, t = pick[:nc], pick[nc:]
        regs = [[t[0]]]
        for x in t[1:]:
            if r.random() < 0.5:
                regs[-1].append(x)
            else:
                regs.append([x])
        return ('gate', r.choice([0, 1, 2, 3, 4, 5]), regs, [(c, r.choice('01')) for c in ctrl])

    def body(self, names, depth, top, blocked):
        """A list of steps; qubits allocated in it are freed in it."""
        r = self.r
        out, mine = [], []
        names = list(names)
        n = r.randint(2, 3)
        for _ in range(n):
            self.left -= 1
            x = r.random()
            avail = [y for y in names if y not in blocked]
            if x < 0.25:
                a = self.fresh()
                out.append(('alloc', a))
                names.append(a)
                mine.append(a)
                out.append(self.gate([y for y in names if y not in blocked]))
            elif x < 0.35 and mine:
                a = mine.pop(0)
                names.remove(a)
                out.append(('free', a))
            elif depth > 0 and self.left > 0 and x < 0.85:
                kind = self.focus if r.random() < 0.6 else r.choice(self.kinds)
                if kind == 'control' and len(avail) < 3:
                    continue
                self.used.add(kind)
                if kind == 'control':
                    cs = r.sample(avail, r.randint(1, min(2, len(avail) - 1)))
                    out.append(('control', [(c, r.choice('01')) for c in cs], self.body(names, depth - 1, False, blocked + cs)))
                elif kind == 'dagger':
                    out.append(('dagger', self.body(names, depth - 1, False, blocked)))
                elif kind == 'loop':
                    out.append(('loop', r.choice([0, 1, 2, 3]), self.body(names, depth - 1, False, blocked)))
                else:
                    cb, kept = self.body2(names, depth - 1, blocked)
                    action = self.body(names + kept, depth - 1, False, blocked)
                    out.append(('compute', cb, action))
            else:
                out.append(self.gate(avail))
        for a in mine:
            out.append(('free', a))
        return out

    def body2(self, names, depth, blocked):
        """A compute body: may keep qubits alive for the action."""
        b = self.body(names, depth, False, blocked)
        kept = []
        if self.r.random() < 0.5:
            a = self.fresh()
            b.append(('alloc', a))
            b.append(self.gate([y for y in names if y not in blocked] + [a]))
            kept.append(a)
        return b, kept


# commands: (gate, regs, ctrl, tags); gate is 'A', 'D' or a number
class Sem:
    def __init__(self):
        self.k = 0

    def fresh(self, n):
        self.k += 1
        return f'{n}~{self.k}'

    def run(self, body):
        out = []
        for s in body:
            out += self.step(s)
        return out

    def local(self, cmds):
        return {c[1][0][0] for c in cmds if c[0] == 'A'} & {c[1][0][0] for c in cmds if c[0] == 'D'}

    def rename(self, cmds, m):
        f = lambda q: m.get(q, q)
        return [(g, [[f(q) for q in r] for r in regs], [(f(c), v) for c, v in ctrl], list(tags)) for g, regs, ctrl, tags in cmds]

    def inv(self, c):
        g = {'A': 'D', 'D': 'A'}.get(c[0], None)
        return (g if g else -c[0], c[1], c[2], list(c[3]))

    def step(self, s):
        k = s[0]
        if k == 'gate':
            return [(s[1], s[2], s[3], [])]
        if k == 'alloc':
            return [('A', [[s[1]]], [], [])]
        if k == 'free':
            return [('D', [[s[1]]], [], [])]
        if k == 'control':
            return [c if c[0] in ('A', 'D') or 'ComputeTag' in c[3] or 'UncomputeTag' in c[3] else (c[0], c[1], c[2] + s[1], c[3]) for c in self.run(s[2])]
        if k == 'dagger':
            return [self.inv(c) for c in reversed(self.run(s[1]))]
        if k == 'loop':
            body = self.run(s[2])
            out = []
            for i in range(s[1]):
                m = {} if i == 0 else {q: self.fresh(q) for q in sorted(self.local(body))}
                out += self.rename(body, m)
            return out
        if k == 'compute':
            rec = self.run(s[1])
            act = self.run(s[2])
            m = {q: self.fresh(q) for q in sorted(self.local(rec))}
            un = [self.inv(c) for c in reversed(self.rename(rec, m))]
            return [(g, r, c, t + ['ComputeTag']) for g, r, c, t in rec] + act + [(g, r, c, t + ['UncomputeTag']) for g, r, c, t in un]
        raise ValueError(k)


def text(body, ind=1):
    pad = '    ' * ind
    out = ''
    if not body:
        return pad + 'pass\n'
    for s in body:
        k = s[0]
        if k == 'gate':
            regs = '(' + ''.join('[' + ', '.join(r) + '], ' for r in s[2]) + ')'
            ctl = ''
            if s[3]:
                ctl = f', controls=[{", ".join(c for c, _ in s[3])}], control_state="{"".join(v for _, v in s[3])}"'
            out += f'{pad}eng.receive([Command(eng, UserGate({s[1]}), {regs}{ctl})])\n'
        elif k == 'alloc':
            out += f'{pad}{s[1]} = eng.allocate_qubit()[0]\n'
        elif k == 'free':
            out += f'{pad}{s[1]}.__del__()\n'
        elif k == 'control':
            out += f'{pad}with Control(eng, [{", ".join(c for c, _ in s[1])}], ctrl_state="{"".join(v for _, v in s[1])}"):\n' + text(s[2], ind + 1)
        elif k == 'dagger':
            out += f'{pad}with Dagger(eng):\n' + text(s[1], ind + 1)
        elif k == 'loop':
            out += f'{pad}with Loop(eng, {s[1]}):\n' + text(s[2], ind + 1)
        else:
            out += f'{pad}with Compute(eng):\n' + text(s[1], ind + 1) + text(s[2], ind) + f'{pad}Uncompute(eng)\n'
    return out


LINE = re.compile(r'^(\S+?)(?:\(num=(-?\d+)\))? (-?[\d,|]+)(?: ctrl (\S+))?(?: tags (\S+))?$')


def parse(ln):
    m = LINE.match(ln)
    if not m:
        return None
    g = {'Allocate': 'A', 'Deallocate': 'D'}.get(m.group(1)) or (int(m.group(2)) if m.group(2) else m.group(1))
    regs = [[int(x) for x in r.split(',') if x] for r in m.group(3).split('|')]
    ctrl = [(int(c.split('=')[0]), c.split('=')[1]) for c in m.group(4).split(',')] if m.group(4) else []
    return (g, regs, ctrl, m.group(5).split(',') if m.group(5) else [])


def show(c):
    g = {'A': 'Allocate', 'D': 'Deallocate'}.get(c[0], f'U{c[0]}')
    return f'{g} {"|".join(",".join(str(q) for q in r) for r in c[1])}' + (' ctrl ' + ','.join(f'{q}={v}' for q, v in sorted(c[2], key=str)) if c[2] else '') + \
        (' tags ' + ','.join(c[3]) if c[3] else '')


def compare(want, outer):
    """outer: name -> id of the qubits allocated before."""
    def f(lines):
        got = [parse(x) for x in lines if not x.startswith('probe')]
        bad = [x for x, g in zip([x for x in lines if not x.startswith('probe')], got) if g is None]
        if bad:
            return f'unexpected {bad[0]}'
        m, taken = dict(outer), set(outer.values())
        for i in range(max(len(want), len(got))):
            if i >= len(got):
                return f'missing {show(want[i])} (after {len(got)} commands)'
            if i >= len(want):
                return f'{show(got[i])} is not expected (after {len(want)} commands)'
            w, g = want[i], got[i]
            if w[0] == 'A' and g[0] == 'A':
                name, idx = w[1][0][0], g[1][0][0]
                if idx in taken:
                    return f'command {i + 1}: id {idx} is allocated again'
                taken.add(idx)
                m[name] = idx
            ok = w[0] == g[0] and [[m.get(q) for q in r] for r in w[1]] == g[1] and \
                sorted((m.get(q), v) for q, v in w[2]) == sorted(g[2]) and w[3] == g[3]
            if not ok:
                return f'command {i + 1} is {show(g)} instead of {show((w[0], [[m.get(q, q) for q in r] for r in w[1]], [(m.get(q, q), v) for q, v in w[2]], w[3]))}'
        return None
    return f


HEAD = '''
def client():
    eng = main_engine()
    q = [WeakQubitRef(eng, 50 + i) for i in range(4)]
'''


def judge(chk, focus, quick, thorough, loc, construct, rule='programs'):
    from .client import expect
    chk.rule(rule, f'random nested programs of meta sections (each with a {focus} section) emit the commands of the reference semantics, up to the ids of new qubits', 10)
    n = thorough if chk.thorough else quick
    for i in range(n):
        size, depth = ((5, 2), (7, 3), (9, 3), (12, 4))[i % (4 if chk.thorough else 3)]
        p = Gen(f'{focus}{i}', focus, size, depth).program()
        want = Sem().run(p)
        if len(want) > 120:
            continue
        expect(chk, rule, f'program {focus} {i}', HEAD + text(p), compare(want, {f'q[{k}]': 50 + k for k in range(4)}), construct, loc, what=('send',))


def gates(body):
    n = 0
    for s in body:
        n += 1 if s[0] == 'gate' else sum(gates(x) for x in s[1:] if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str) and x[0][0] in KINDS)
    return n


KINDS = ('gate', 'alloc', 'free', 'control', 'dagger', 'loop', 'compute')


def judge_chain(chk, quick, thorough, loc, construct, rule='programs'):
    """After a program, or after an error in the middle of one, the engine chain is what it was before."""
    from .client import expect
    chk.rule(rule, 'after random nested programs of meta sections, complete or left by an exception, the engine chain is what it was before', 20)
    n = thorough if chk.thorough else quick
    for i in range(n):
        kinds = ('control', 'dagger', 'loop') if i % 2 else ('control', 'dagger', 'loop', 'compute')
        focus = kinds[i % len(kinds)]
        p = Gen(f'chain{i}', focus, (5, 7, 9)[i % 3], 3, kinds).program()
        src = text(p, 2)
        if i % 2:
            lines = src.splitlines()
            at = [k for k, ln in enumerate(lines) if 'UserGate' in ln]
            k = at[(i * 7) % len(at)]
            lines[k] = lines[k][:len(lines[k]) - len(lines[k].lstrip())] + "raise LookupError('x')"
            src = '\n'.join(lines) + '\n'
        src = """
def client():
    a, b = TagRemover(), TagRemover()
    eng = main_engine(Recorder(), [a, b])
    q = [WeakQubitRef(eng, 50 + i) for i in range(4)]
    n = eng.n_engines
    try:
""" + src + """    except LookupError:
        pass
    probe(eng.n_engines == n, eng.next_engine is a, a.next_engine is b, b.next_engine is eng.backend, a.main_engine is eng, b.main_engine is eng)
"""
        expect(chk, rule, f'program {i}' + (', left by an exception' if i % 2 else ''), src, ['probe True True True True True True'], construct, loc, what=('probe',))
