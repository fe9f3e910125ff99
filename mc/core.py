"""Bookkeeping shared by all explorers: counters, violations, hashing.

A check module defines

    KINDS  = {"kind": fn(ctx, params)}     # decides one case; raises Violation
    cases(tier) -> iterator of (kind, params)   # params: JSON-able

The explorer (mc.child) runs every case; a case is replayable on its own with
``python -m mc.replay FILE``.  A case may itself be a whole search (a root
configuration from which histories are explored); then it puts the failing
history into the violation as a sub-case (kind, params) of its own.
"""
import hashlib
import json
import struct
import time


class Violation(Exception):
    def __init__(self, msg, kind=None, params=None):
        super().__init__(msg)
        self.kind = kind
        self.params = params


class Deadline(Exception):
    pass


def h64(key) -> int:
    if not isinstance(key, (bytes, bytearray)):
        key = repr(key).encode()
    return struct.unpack("<Q", hashlib.blake2b(key, digest_size=8).digest())[0]


def jkey(kind, params):
    return json.dumps([kind, params], sort_keys=True)


class Ctx:
    def __init__(self, prop="", tier="quick", beat=None, deadline=None):
        self.prop = prop
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.depth = 0
        self.caps = []
        self._beat = beat
        self._deadline = deadline
        self.scratch = None

    # -- coverage ---------------------------------------------------------
    def state(self, key) -> bool:
        """registers a state; True if it is new"""
        h = h64(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def cap(self, text):
        if text not in self.caps:
            self.caps.append(text)

    def deeper(self, d):
        self.depth = max(self.depth, d)

    # -- liveness ---------------------------------------------------------
    def beat(self):
        if self._beat:
            self._beat()
        if self._deadline and time.time() > self._deadline:
            raise Deadline()

    # -- verdict ----------------------------------------------------------
    def fail(self, msg, kind=None, params=None):
        raise Violation(msg, kind, params)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)
