"""The world the operator scripts run in: one service, which appears and answers late."""
import json
import os


class World:
    def __init__(self):
        self.cfg = json.loads(os.environ["VROS_CFG"])
        self.now = 0.0
        self.inited = False
        self.requests = []
        self.events = []
        self.pending = []

    def log(self, kind, **kw):
        self.events.append(dict(kind=kind, t=self.now, **kw))
        with open(os.environ["VROS_OUT"], "w") as f:
            json.dump(self.events, f)

    def advance(self, s):
        self.now += max(0.0, float(s))
        if self.now > 1e7:
            raise RuntimeError("waited for more than 10^7 s")

    def ready(self, name):
        return self.resolve(name) == "configure" and self.now >= self.cfg["up_at"]

    @staticmethod
    def resolve(name):
        return name[1:] if name.startswith("/") else name

    def step(self, dt):
        """Let replies due within dt arrive; True when time passed without one."""
        due = sorted((f for f in self.pending if not f._done and f._at is not None), key=lambda f: f._at)
        if due and due[0]._at <= self.now + dt:
            self.now = max(self.now, due[0]._at)
            due[0]._finish()
            return
        self.advance(dt)


W = World()
