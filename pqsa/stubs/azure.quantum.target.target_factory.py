"""Model of azure.quantum.target.target_factory."""
from azure.quantum.target import Target


class TargetFactory:
    def __init__(self, base_cls=None, workspace=None, default_targets=None):
        self.workspace = workspace

    def get_targets(self, name=None, provider_id=None):
        return Target(self.workspace, name)
