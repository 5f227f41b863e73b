"""Schedule perturbation without touching the code: sleeps before lines of
repository code, through sys.monitoring (all threads)."""
import os
import random
import sys
import threading
import time

REPO_PREFIX = os.path.join(os.environ.get('VF_REPO', '/repo'), '')


class Delays:
    """Rarely executed lines are the interesting ones (per document rather than per
    token): the n-th execution of a line is delayed with decreasing probability.
    focus: only files whose name contains one of these."""
    TOOL = 4

    def __init__(self, seed, probability=0.02, max_sleep=0.003, max_per_line=30, focus=None,
                 budget=1.5):
        self.rng = random.Random(seed)
        self.lock = threading.Lock()
        self.probability = probability
        self.max_sleep = max_sleep
        self.max_per_line = max_per_line
        self.focus = focus
        self.budget = budget   # seconds slept in all threads together
        self.slept = 0.0
        self.sleeps = 0
        self.seen = 0
        self.lines = set()
        self.threads = set()
        self.switches = 0      # a line executed by another thread than the line before
        self._last = None
        self.counts = {}

    def _event(self, code, line, *_):
        filename = code.co_filename
        if not filename.startswith(REPO_PREFIX):
            return sys.monitoring.DISABLE
        if self.focus and not any(f in filename for f in self.focus):
            return sys.monitoring.DISABLE
        with self.lock:
            ident = threading.get_ident()
            self.seen += 1
            if ident != self._last:
                self.switches += 1
                self._last = ident
            self.threads.add(ident)
            key = (filename, line)
            n = self.counts.get(key, 0) + 1
            self.counts[key] = n
            r = self.rng.random()
            duration = (
                self.rng.random() * self.max_sleep
                if r < self.probability * 10 / (10 + n) and self.slept < self.budget else None
            )
            if duration is not None:
                self.slept += duration
                self.sleeps += 1
        if duration is not None:
            time.sleep(duration)
        return sys.monitoring.DISABLE if n > self.max_per_line else None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vf-delays')
        m.register_callback(self.TOOL, m.events.LINE, self._event)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        self._switch = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *_):
        m = sys.monitoring
        sys.setswitchinterval(self._switch)
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)
