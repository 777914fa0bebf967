"""Counts the work of the code that runs: loop iterations and calls, independent of the speed of the machine."""
import sys

TOOL = 4


class Budget(BaseException):
    pass


class Work:
    def __init__(self, budget):
        self.n = 0
        self.budget = budget

    def tick(self, code, *a):
        self.n += 1
        if self.n > self.budget and code is not Work.__exit__.__code__:
            self.budget = float("inf")  # once only
            raise Budget()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif")
        e = m.events
        self.events = (e.JUMP, e.PY_START, e.PY_RESUME)
        for k in self.events:
            m.register_callback(TOOL, k, self.tick)
        m.set_events(TOOL, e.JUMP | e.PY_START | e.PY_RESUME)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        for k in self.events:
            m.register_callback(TOOL, k, None)
        m.free_tool_id(TOOL)
