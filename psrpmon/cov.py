"""Line and branch coverage of the code under test through sys.monitoring, used as guidance and as evidence.

Every location is reported once and then disabled, so the cost after warm up is close to zero.
"""

import sys

TOOL = 3


class Coverage:
    def __init__(self, src):
        self.src = src
        self.points = set()
        self.fresh = 0
        self.half = {}

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(TOOL, "psrpmon")
        except ValueError:
            return
        ev = mon.events
        DISABLE = mon.DISABLE
        src = self.src
        points = self.points
        half = self.half

        def line(code, no):
            if not code.co_filename.startswith(src):
                return DISABLE
            k = (code.co_filename, no)
            if k not in points:
                points.add(k)
                self.fresh += 1
            return DISABLE

        def branch(code, off, dest):
            if not code.co_filename.startswith(src):
                return DISABLE
            k = (code.co_filename, code.co_firstlineno, off, dest)
            if k not in points:
                points.add(k)
                self.fresh += 1
            h = half.setdefault((code, off), [set(), 0])
            h[0].add(dest)
            h[1] += 1
            # A branch that keeps going the same way is looked at again after the next rearm().
            return DISABLE if len(h[0]) >= 2 or h[1] % 64 == 0 else None

        mon.register_callback(TOOL, ev.LINE, line)
        mon.register_callback(TOOL, ev.BRANCH, branch)
        mon.set_events(TOOL, ev.LINE | ev.BRANCH)

    def rearm(self):
        sys.monitoring.restart_events()

    def stop(self):
        mon = sys.monitoring
        try:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
        except ValueError:
            pass

    def lines(self):
        return {k for k in self.points if len(k) == 2}

    def branches(self):
        return {k for k in self.points if len(k) == 4}
