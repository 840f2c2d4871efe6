"""Model of azure.quantum.target."""
from . import target_factory

installed = []


class Job:
    def __init__(self, name):
        self.id = name

    def get_results(self, timeout_secs=None):
        return installed[-1].results(self.id, timeout_secs)


class Target:
    def __init__(self, workspace=None, name=None):
        self.workspace = workspace
        self.name = name
        self.average_queue_time = 0

    @property
    def current_availability(self):
        return installed[-1].availability

    def submit(self, circuit=None, num_shots=None, **kwargs):
        return Job(installed[-1].submit(circuit, num_shots, kwargs))

    def estimate_cost(self, circuit=None, num_shots=None, **kwargs):
        return 0


class IonQ(Target):
    target_names = ('ionq.simulator', 'ionq.qpu')


class Quantinuum(Target):
    target_names = ('quantinuum.hqs-lt-s1', 'quantinuum.hqs-lt-s1-apival', 'quantinuum.hqs-lt-s1-sim')
