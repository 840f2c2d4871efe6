"""Models of the services behind the hardware backends and the meaning of the instructions they are sent."""
from .client import PRELUDE

STUBS = ('networkx', 'random', 'requests', 'requests.compat', 'requests.exceptions', 'signal', 'time', 'getpass', 'uuid', 'boto3', 'botocore',
         'botocore.exceptions', 'azure', 'azure.quantum', 'azure.quantum.target', 'azure.quantum.target.target_factory')

HEAD = PRELUDE + '''
import json
import boto3
import requests
import signal
import time
import azure.quantum.target
from azure.quantum import Workspace
from requests import Response
from requests.exceptions import HTTPError, RequestException
from projectq.backends import AQTBackend, AWSBraketBackend, AzureQuantumBackend, IBMBackend, IonQBackend
from projectq.cengines import BasicMapperEngine


class PermutingMapper(BasicMapperEngine):
    """A mapper with a fixed, non-trivial assignment."""

    def __init__(self, mapping):
        super().__init__()
        self.current_mapping = mapping

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, FlushGate):
                self.send([cmd])
            else:
                self._send_cmd_with_mapped_ids(cmd)


class Service:
    """What every service has in common: outcomes per location, the number of polls a job needs, failures."""

    def __init__(self, outcomes=None, polls=1, status=None, fail=None, job='job-17'):
        self.outcomes = [({}, 1)] if outcomes is None else outcomes
        self.polls = polls
        self.asked = 0
        self.status = status
        self.fail = fail
        self.job = job
        self.measured = []
        self.size = 6
        self.availability = 'Available'
        self.online = True
        requests.installed.append(self)
        boto3.installed.append(self)
        azure.quantum.target.installed.append(self)

    def step(self, what):
        if self.fail is not None and self.fail[0] == what:
            raise self.fail[1]

    def poll(self):
        self.asked = self.asked + 1
        self.step('poll')
        return self.asked > self.polls

    def histogram(self):
        found = {}
        for b, p in self.outcomes:
            k = str(int('0' + self.text(b, self.measured)[::-1], 2))
            found[k] = found.get(k, 0) + p
        return found

    def text(self, bits, locations):
        return ''.join([str(bits.get(x, 0)) for x in locations])


class IBMService(Service):
    def answer(self, how, url, kw, session):
        if 'loginWithToken' in url:
            self.step('login')
            probe('token', kw['json']['apiToken'])
            return Response({'id': 'access'})
        if url.endswith('devices/v/1'):
            if not self.online:
                return Response([])
            return Response([{'backend_name': x, 'n_qubits': 12, 'coupling_map': [], 'backend_version': '1'} for x in ('ibmq_qasm_simulator', 'chip')])
        if how == 'post' and url.endswith('/Jobs'):
            self.step('submit')
            return Response({'id': self.job, 'objectStorageInfo': {'uploadUrl': 'http://up'}})
        if how == 'put':
            data = json.loads(kw['data'])
            self.size = data['config']['n_qubits']
            probe('upload', json.dumps(data['experiments'][0]['instructions']), data['config']['shots'], self.size)
            return Response({})
        if how == 'post':
            return Response({})
        if url.endswith('resultDownloadUrl'):
            return Response({'url': 'http://down'})
        if url == 'http://down':
            shots = 1024
            return Response({'results': [{'data': {'counts': {hex(int(self.text(b, range(self.size))[::-1], 2)): int(p * shots) for b, p in self.outcomes}}}]})
        probe('asks', url)
        if self.poll():
            return Response({'status': 'COMPLETED' if self.status is None else self.status})
        return Response({'status': 'RUNNING'})


class AQTService(Service):
    def answer(self, how, url, kw, session):
        data = kw['data']
        if 'data' in data:
            self.step('submit')
            probe('token', data['access_token'])
            self.size = data['no_qubits']
            probe('upload', data['data'], data['repetitions'], self.size)
            return Response({'status': 'queued', 'id': self.job})
        probe('asks', data['id'])
        if self.poll():
            if self.status is not None:
                return Response({'status': self.status})
            samples = []
            for b, p in self.outcomes:
                samples += [int(self.text(b, range(self.size))[::-1], 2)] * int(p * 100)
            return Response({'status': 'finished', 'samples': samples})
        return Response({'status': 'running'})


class IonQService(Service):
    def answer(self, how, url, kw, session):
        if url.endswith('backends'):
            self.step('login')
            probe('token', session.headers['Authorization'])
            return Response([])
        if how == 'post':
            self.step('submit')
            job = kw['json']
            self.measured = job['registers']['meas_mapped']
            self.ids = job['metadata']['meas_qubit_ids']
            self.size = job['body']['qubits']
            probe('upload', json.dumps(job['body']['circuit']), job['shots'], self.size, json.dumps(self.measured))
            return Response({'status': 'ready', 'id': self.job})
        probe('asks', url)
        if self.poll():
            if self.status is not None:
                return Response({'status': self.status})
            found = self.histogram()
            return Response({'status': 'completed', 'qubits': self.size, 'registers': {'meas_mapped': self.measured},
                             'metadata': {'meas_qubit_ids': self.ids}, 'data': {'registers': {'meas_mapped': found}}})
        return Response({'status': 'running'})


class _Body:
    def __init__(self, content):
        self.content = content

    def read(self):
        return self.content


class AWSService(Service):
    kind = 'QPU'

    def devices(self, region):
        self.step('login')
        if not self.online:
            return {'devices': []}
        names = ['Aspen-8'] if region == 'us-west-1' else ['IonQ Device', 'SV1']
        return {'devices': [{'deviceType': 'SIMULATOR' if x == 'SV1' else 'QPU', 'deviceName': x, 'deviceArn': 'arn:' + x} for x in names]}

    def device(self, arn):
        schema = {'properties': {'braketSchemaHeader': {'const': {'name': 'n', 'version': '1'}}}}
        parameters = {'properties': schema['properties'], 'definitions': {'GateModelParameters': schema}}
        return {'deviceType': 'SIMULATOR' if arn.endswith('SV1') else 'QPU',
                'deviceCapabilities': json.dumps({'braketSchemaHeader': {'version': '1'}, 'deviceParameters': parameters,
                                                  'paradigm': {'qubitCount': 12, 'connectivity': {'connectivityGraph': {}}}})}

    def create(self, action, arn, parameters, shots):
        self.step('submit')
        self.arn = arn
        self.size = json.loads(parameters)['paradigmParameters']['qubitCount']
        probe('upload', json.dumps(json.loads(action)['instructions']), shots, self.size)
        return {'quantumTaskArn': 'arn:aws:braket:us-east-1:1:' + self.job}

    def task(self, arn):
        probe('asks', arn)
        status = 'QUEUED'
        if self.poll():
            status = 'COMPLETED' if self.status is None else self.status
        return {'status': status, 'outputS3Bucket': 'b', 'outputS3Directory': 'd', 'deviceArn': self.arn, 'failureReason': 'why'}

    def object(self, bucket, key):
        if self.arn.endswith('SV1'):
            rows = []
            for b, p in self.outcomes:
                rows += [[b.get(x, 0) for x in range(self.size)]] * int(p * 100)
            return {'Body': _Body(json.dumps({'measurements': rows}))}
        return {'Body': _Body(json.dumps({'measurementProbabilities': {self.text(b, range(self.size)): p for b, p in self.outcomes}}))}


class AzureService(Service):
    def submit(self, circuit, shots, kw):
        self.step('submit')
        if isinstance(circuit, dict):
            self.size = circuit['qubits']
            self.measured = kw['metadata']['meas_map']
            probe('upload', json.dumps(circuit['circuit']), shots, self.size, json.dumps(self.measured))
        else:
            self.measured = None
            self.size = int(circuit.split('qreg q[')[1].split(']')[0])
            probe('upload', circuit, shots)
        return self.job

    def results(self, job, timeout):
        probe('waits', job, timeout)
        self.step('poll')
        if timeout is not None and timeout < self.polls:
            raise TimeoutError('too slow')
        if self.measured is None:
            rows = []
            for b, p in self.outcomes:
                rows += [self.text(b, range(self.size))] * int(p * 100)
            return {'c': rows}
        return {'histogram': self.histogram()}


'''
# name -> (service class, constructor of the backend, needs a mapper)
DEVICES = {
    'IBM': ('IBMService', "IBMBackend(use_hardware=True, num_runs=1024, verbose={v}, token={t}, device='chip', num_retries={n}, interval=3)"),
    'AQT': ('AQTService', "AQTBackend(use_hardware=True, num_runs=100, verbose={v}, token={t}, device='aqt_simulator', num_retries={n}, interval=3)"),
    'IonQ': ('IonQService', "IonQBackend(use_hardware=True, num_runs=100, verbose={v}, token={t}, device='ionq_qpu', num_retries={n}, interval=3)"),
    'AWS Aspen-8': ('AWSService', "AWSBraketBackend(use_hardware=True, num_runs=100, verbose={v}, credentials={c}, s3_folder=['a', 'b'], device='Aspen-8', num_retries={n}, interval=3)"),
    'AWS IonQ Device': ('AWSService', "AWSBraketBackend(use_hardware=True, num_runs=100, verbose={v}, credentials={c}, s3_folder=['a', 'b'], device='IonQ Device', num_retries={n}, interval=3)"),
    'AWS SV1': ('AWSService', "AWSBraketBackend(use_hardware=False, num_runs=100, verbose={v}, credentials={c}, s3_folder=['a', 'b'], num_retries={n}, interval=3)"),
    'Azure IonQ': ('AzureService', "AzureQuantumBackend(use_hardware=True, num_runs=100, verbose={v}, workspace=Workspace(), target_name='ionq.qpu', num_retries={n}, interval=3)"),
    'Azure Quantinuum': ('AzureService', "AzureQuantumBackend(use_hardware=True, num_runs=100, verbose={v}, workspace=Workspace(), target_name='quantinuum.hqs-lt-s1', num_retries={n}, interval=3)"),
}


def backend(name, verbose=False, retries=4, token="'secret-token'"):
    cred = "{'AWS_ACCESS_KEY_ID': 'secret-id', 'AWS_SECRET_KEY': 'secret-key'}"
    return DEVICES[name][1].format(v=verbose, n=retries, t=token, c=cred)


class Unreadable(Exception):
    pass


def instructions(dev, text):
    """The instructions of an uploaded circuit as (name, parameters, targets, controls)."""
    import json
    import math
    import re
    out = []
    if dev == 'Azure Quantinuum':
        for ln in text.split('\n'):
            ln = ln.strip()
            if not ln or ln.startswith(('OPENQASM', 'include', 'qreg', 'creg')):
                continue
            m = re.fullmatch(r'([a-z0-9]+)\s*(?:\(([^)]*)\))?\s*((?:q\[\d+\]\s*,?\s*)+)(?:->\s*c\[(\d+)\])?\s*;', ln)
            if m is None:
                raise Unreadable(ln)
            name, par, qs, c = m.groups()
            qs = [int(x) for x in re.findall(r'\d+', qs)]
            par = [number(x) for x in par.split(',')] if par else []
            if name == 'measure':
                out.append(('measure', [int(c)], qs, []))
                continue
            k = 0
            base = {'cx': 'x', 'ccx': 'x', 'cz': 'z', 'ccz': 'z', 'cy': 'y', 'ch': 'h', 'crz': 'rz', 'sdg': 'si', 'tdg': 'ti', 'u1': 'u1', 'u2': 'u2', 'u3': 'u3'}.get(name, name)
            if name in ('cx', 'cz', 'cy', 'ch', 'crz'):
                k = 1
            if name in ('ccx', 'ccz'):
                k = 2
            out.append((base, par, qs[k:], qs[:k]))
        return out
    data = json.loads(text)
    for x in data:
        if dev == 'IBM':
            n, q, par = x['name'], x['qubits'], x.get('params', [])
            out.append(('x', [], q[1:], q[:1]) if n == 'cx' else (n, par, q, []) if n != 'measure' else (n, x['memory'], q, []))
        elif dev == 'AQT':
            out.append(({'X': 'rx', 'Y': 'ry', 'MS': 'rxx', 'Z': 'rz'}.get(x[0], x[0]), [x[1] * math.pi], x[2], []))
        elif dev.startswith('AWS'):
            n = x['type']
            ctrl = x.get('controls', [x['control']] if 'control' in x else [])
            tgt = x.get('targets', [x['target']] if 'target' in x else [])
            k = len(ctrl)
            if k and not n.startswith('c' * k):
                raise Unreadable(f'{n} with controls {ctrl}')
            n = n[k:]
            if k and n == 'not':
                n = 'x'
            if n.startswith('c'):
                raise Unreadable(f'{x["type"]} with controls {ctrl}')
            out.append(({'phaseshift': 'r', 'xx': 'rxx', 'yy': 'ryy', 'zz': 'rzz'}.get(n, n), [x['angle']] if 'angle' in x else [], tgt, ctrl))
        else:
            n = x['gate']
            out.append(({'xx': 'rxx', 'yy': 'ryy', 'zz': 'rzz', 'not': 'x', 'cnot': 'x', 'cx': 'x'}.get(n, n), [x['rotation']] if 'rotation' in x else [],
                        x['targets'], x.get('controls', [])))
    return out


def number(text):
    import math
    import re
    if re.sub(r'[\d\s.+\-*/()e]|pi', '', text):
        raise Unreadable(text)
    return float(eval(text, {'__builtins__': {}}, {'pi': math.pi}))


def matrix(name, par):
    """Meaning of a device instruction."""
    import math
    from . import unitary as u
    if name in u.FIXED and not par:
        return u.FIXED[name]
    if name in u.ROTS.values() and len(par) == 1:
        return u.rot(name, par[0])
    if name == 'u1' and len(par) == 1:
        return u.u3(0, 0, par[0])
    if name == 'u2' and len(par) == 2:
        return u.u3(math.pi / 2, *par)
    if name == 'u3' and len(par) == 3:
        return u.u3(*par)
    raise Unreadable(f'instruction {name} with parameters {par}')


def gate_matrix(sig):
    """Meaning of a library gate given by its description, or None."""
    from . import unitary as u
    from .trace import num
    at = dict(sig[1]) if isinstance(sig, tuple) and isinstance(sig[1], tuple) else {}
    name = sig[0] if isinstance(sig, tuple) else str(sig)
    if name in u.GATES:
        return u.FIXED[u.GATES[name]]
    if name in u.ROTS:
        a = num(at.get('angle'))
        return None if a is None else u.rot(u.ROTS[name], a)
    if name == 'DaggeredGate':
        m = gate_matrix(at.get('_gate'))
        return None if m is None else u.dagger(m)
    return None
