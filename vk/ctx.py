"""What a check sees while it explores one shard of its state space."""
import hashlib
import json
import math


class Ctx:
    MAX_VIOLATIONS = 25

    def __init__(self, prop, tier, seed, only=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.only = only
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = {}
        self.nviol = 0
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- accounting ---------------------------------------------------------
    def state(self, *key):
        """A state of the model (a distinct object under a distinct history).
        Returns False if it was already visited in this shard."""
        h = hash(key) if all(isinstance(k, (int, str, float, tuple))
                             for k in key) else hash(repr(key))
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, n=1):
        """Transitions: operations of the implementation that were compared
        with the model."""
        self.transitions += n

    def trace(self, n=1):
        """A complete behaviour of the model replayed on the real code."""
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------
    def violation(self, key, what, case):
        """key: stable identifier of the failing input / call / history."""
        self.nviol += 1
        if key in self.violations:
            return
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations[key] = {'key': key, 'what': what,
                                    'case': jsonable(case)}

    def check(self, cond, key, what, case):
        self.transitions += 1
        if self.transitions in (10, 1000, 30000) and not callable(case):
            self.sample({'property checked': key, 'case': case})
        if not cond:
            self.violation(key, what() if callable(what) else what,
                           case() if callable(case) else case)
        return cond

    def result(self):
        return {
            'states': len(self._states),
            'transitions': self.transitions,
            'traces': self.traces,
            'outcomes': self.outcomes,
            'samples': jsonable(self.samples),
            'violations': list(self.violations.values()),
            'nviol': self.nviol,
            'notes': self.notes,
        }


def jsonable(x):
    try:
        import numpy as np
    except ImportError:
        np = None
    if np is not None:
        if isinstance(x, np.ndarray):
            return jsonable(x.tolist())
        if isinstance(x, np.generic):
            return str(x) if x.dtype.kind in 'mM' else jsonable(x.item())
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)
