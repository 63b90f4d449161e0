"""Names that the demo imports; the checks supply the client object."""


class MQTTMessage:
    def __init__(self, topic=b"", payload=b""):
        self.topic, self.payload = topic, payload


class Client:
    def __init__(self, *a, **k):
        raise RuntimeError("no network")
