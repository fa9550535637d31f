"""What a task reports back to the runner."""
import numpy as np


class Skip(Exception):
    """The unit under check is not there under the name the tests use."""


class Result:
    def __init__(self):
        self.states = 0  # distinct configurations put to the reference model
        self.transitions = 0  # complete executions of the real code
        self.validated = 0  # predictions of the reference compared with an execution
        self.violations = []
        self.known = {}
        self.outcomes = set()
        self.samples = []
        self.skipped = []

    def bad(self, msg, **info):
        self.violations.append({"msg": msg, "info": jsonable(info)})

    def sample(self, **info):
        if len(self.samples) < 3:
            self.samples.append(jsonable(info))

    def outcome(self, x):
        if len(self.outcomes) < 100000:
            self.outcomes.add(x if isinstance(x, str) else repr(x))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)[:300]
