"""Model of boto3: every client forwards to the server model the client program installed."""
installed = []


class _Client:
    def __init__(self, service, region, key, secret):
        self.service = service
        self.region = region
        self.key = key
        self.secret = secret

    def search_devices(self, filters=None):
        return installed[-1].devices(self.region)

    def get_device(self, deviceArn=None):
        return installed[-1].device(deviceArn)

    def create_quantum_task(self, action=None, deviceArn=None, deviceParameters=None, outputS3Bucket=None, outputS3KeyPrefix=None, shots=None):
        return installed[-1].create(action, deviceArn, deviceParameters, shots)

    def get_quantum_task(self, quantumTaskArn=None):
        return installed[-1].task(quantumTaskArn)

    def get_object(self, Bucket=None, Key=None):
        return installed[-1].object(Bucket, Key)


def client(service, region_name=None, aws_access_key_id=None, aws_secret_access_key=None):
    return _Client(service, region_name, aws_access_key_id, aws_secret_access_key)
