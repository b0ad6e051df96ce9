"""Recorder: what a monitor saw.  One per worker; merged by the runner."""
import collections
import hashlib
import json
import os
import traceback


class Violation(Exception):
    """Raised by an oracle when the code under test breaks the property.

    key identifies the specific failing input class / call site, for the known-findings file."""

    def __init__(self, key, msg, **data):
        super().__init__(msg)
        self.key = key
        self.msg = msg
        self.data = data


def jsonable(v, depth=0):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (bytes, bytearray)):
        h = bytes(v).hex()
        return h if len(h) < 4000 else h[:4000] + '...(%d bytes)' % len(v)
    if depth > 6:
        return repr(v)[:500]
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [jsonable(x, depth + 1) for x in v]
    return repr(v)[:2000]


class Recorder:
    MAX_VIOLATIONS = 1 if os.environ.get('VMON_STOP') else 5

    def __init__(self):
        self.evaluations = 0
        self.features = set()
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.cur = None

    def ev(self, n=1):
        """n oracle evaluations (one comparison of an observation with the specification)"""
        self.evaluations += n

    def feat(self, *f):
        """a distinct non-trivial situation that an oracle evaluation was made in"""
        self.features.add(hashlib.blake2b(repr(f).encode(), digest_size=8).hexdigest())

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(kw))

    def violation(self, v, episode):
        self.violations.append({'key': v.key, 'msg': v.msg, 'data': jsonable(v.data), 'episode': episode})

    def dump(self):
        return {'evaluations': self.evaluations, 'features': sorted(self.features), 'counts': dict(self.counts),
                'samples': self.samples, 'violations': self.violations}


def expect(cond, key, msg, **data):
    if not cond:
        raise Violation(key, msg, **data)


def same(got, want, key, msg, **data):
    if got != want or type(got) is bool and type(want) is not bool:
        raise Violation(key, msg, got=got, want=want, **data)


def unexpected(exc, key, msg, **data):
    raise Violation(key, '%s: %s: %s' % (msg, type(exc).__name__, exc),
                    traceback=''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:], **data)
