"""Model of azure.quantum: targets forward to the server model the client program installed."""
from . import target


class Workspace:
    def __init__(self, **kwargs):
        self.agents = []
        self.name = 'workspace'

    def append_user_agent(self, name):
        self.agents.append(name)

    def get_job(self, job_id=None):
        return target.Job(job_id)
