"""Runner: obligations, known findings, evidence, exit code."""
import json
import os
import pickle
import sys
import time
import traceback

from .model import AnalysisError, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('KNOWN-FINDING:'):
                parts = dict(p.split('=', 1) for p in ln.split(' ')[1:3])
                out[(parts['property'], parts['key'])] = ln.split(' ', 3)[3]
    return out


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.repo = os.environ.get('PQSA_REPO', '/repo')
        self.prog = Program(self.repo)
        self.held, self.viol, self.undec = {}, {}, {}
        self.rules = {}
        self.fns = set()
        self.paths = 0
        self.samples = []
        self.assume = []
        self.mins = {}
        self.shard, self.shards, self.count = 0, 1, 0

    def mine(self):
        """Whether this process handles the next obligation (obligations are dealt out to worker processes)."""
        self.count += 1
        return self.count % self.shards == self.shard

    def absorb(self, held, viol, undec, fns, paths):
        for r, v in held.items():
            self.held.setdefault(r, []).extend(v)
        for k, v in viol.items():
            self.viol.setdefault(k, v)
        for r, v in undec.items():
            self.undec.setdefault(r, {}).update(v)
        self.fns |= fns
        self.paths += paths

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, name, text, minimum=1):
        self.rules[name] = text
        self.mins[name] = minimum
        self.held.setdefault(name, [])

    def ok(self, rule, inst):
        self.held.setdefault(rule, []).append(inst)

    def fail(self, rule, construct, loc, msg):
        """construct: stable name (class/function/site); loc: file:line"""
        key = f'{rule}/{construct}'.replace(' ', '_')
        self.viol.setdefault(key, (rule, construct, loc, msg))

    def unknown(self, rule, inst, why):
        self.undec.setdefault(rule, {})[inst] = why

    def guard(self, rule, inst):
        return _Guard(self, rule, inst)

    def saw(self, interp, outs=None):
        self.fns |= {f for f in interp.seen_fns if not f.startswith("pqsa_client")}
        if outs is not None:
            self.paths += len(outs)

    def finish(self, explanation):
        known = load_known()
        new, listed = [], []
        for key, (rule, construct, loc, msg) in sorted(self.viol.items()):
            if (self.pid, key) in known:
                listed.append((key, known[(self.pid, key)]))
            else:
                new.append((key, rule, construct, loc, msg))
        nheld = {r: len(v) for r, v in self.held.items()}
        nund = {r: len(v) for r, v in self.undec.items()}
        nviol = {}
        for key, v in self.viol.items():
            nviol[v[0]] = nviol.get(v[0], 0) + 1
        total = sum(nheld.values()) + sum(nund.values()) + len(self.viol)
        short = [r for r, m in self.mins.items() if nheld.get(r, 0) + nviol.get(r, 0) + nund.get(r, 0) < m]
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f'{self.pid}.json')
        cov = {
            'explanation': explanation,
            'obligations': total,
            'discharged': sum(nheld.values()),
            'undecided': {r: v for r, v in self.undec.items() if v},
            'per_rule': {r: {'rule': self.rules.get(r, r), 'held': nheld.get(r, 0), 'violated': nviol.get(r, 0), 'undecided': nund.get(r, 0)}
                         for r in sorted(set(self.rules) | set(nheld) | set(nund) | set(nviol))},
            'functions_analysed': len(self.fns),
            'paths_analysed': self.paths,
            'modules_loaded': len(self.prog.modules),
            'source_digest': self.prog.digest.hexdigest(),
            'samples': [f'{r}: {x}' for r, v in self.held.items() for x in v[:4]][:60],
            'known_findings': [k for k, _ in listed],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        with open(os.devnull if os.environ.get('PQSA_NOEVIDENCE') else os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for key, what in listed:
            print(f'KNOWN-FINDING: property={self.pid} {what}')
        print(f'{self.pid}: {sum(nheld.values())} of {total} obligations hold, {sum(nund.values())} undecided, '
              f'{len(self.viol)} violated; {len(self.fns)} functions, {self.paths} paths, {time.time() - self.t0:.1f} s')
        for r, v in self.undec.items():
            for i, why in list(v.items())[:20]:
                print(f'  undecided {r}: {i}: {why}')
        if new:
            with open(replay, 'w') as f:
                json.dump([{'key': k, 'rule': r, 'rule_text': self.rules.get(r, ''), 'construct': c, 'location': l, 'message': m}
                           for k, r, c, l, m in new], f, indent=1)
            for k, r, c, l, m in new:
                print(f'  {l}: [{r}] {c}: {m}')
            print(f'VIOLATION property={self.pid} replay={replay}')
            return 1
        if short:
            print(f'{self.pid}: no answer: rule(s) {", ".join(short)} found fewer instances than expected '
                  f'({ {r: nheld.get(r, 0) for r in short} })')
            return 2
        return 0


class _Guard:
    """An obligation the analysis cannot finish is reported as undecided."""

    def __init__(self, chk, rule, inst):
        self.chk, self.rule, self.inst = chk, rule, inst

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if e is None or not isinstance(e, Exception):
            return False
        if os.environ.get('PQSA_DEBUG'):
            return False
        last = tb
        while last.tb_next is not None:
            last = last.tb_next
        where = f'{os.path.basename(last.tb_frame.f_code.co_filename)}:{last.tb_lineno}'
        self.chk.unknown(self.rule, self.inst, f'{t.__name__}: {str(e)[:200]}' + ('' if isinstance(e, AnalysisError) else f' at {where}'))
        return True


def run_check(mod, chk):
    n = min(8, os.cpu_count() or 1)
    if not getattr(mod, 'PARALLEL', False) or n < 2 or os.environ.get('PQSA_DEBUG'):
        return mod.check(chk)
    pids = []
    sys.stdout.flush()
    for i in range(1, n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                chk.shard, chk.shards = i, n
                mod.check(chk)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((chk.held, chk.viol, chk.undec, chk.fns, chk.paths), f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        pids.append((pid, r))
    chk.shards = n
    text = mod.check(chk)
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            raise AnalysisError('a worker process ended early')
        chk.absorb(*pickle.loads(data))
    return text


def main(argv=None):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(f'pqsa.rules.{a.property.lower()}')
    chk = Check(a.property, 'thorough' if a.tier == 'thorough' else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        explanation = run_check(mod, chk)
    except AnalysisError as e:
        print(f'{a.property}: no answer: {e}')
        return 2
    return chk.finish(explanation)
