"""Which lines and functions of the repository an execution reached (sys.monitoring, each location reported once)."""
import os
import sys

LINES = set()
FUNCS = set()


def start(repo):
    mon = sys.monitoring
    root = os.path.join(os.path.realpath(repo), "gwinferno") + os.sep
    cut = len(os.path.realpath(repo)) + 1
    names = {}

    def name(code):
        f = code.co_filename
        if f not in names:
            r = os.path.realpath(f)
            names[f] = r[cut:] if r.startswith(root) else None
        return names[f]

    def on_line(code, line):
        n = name(code)
        if n:
            LINES.add((n, line))
        return mon.DISABLE

    def on_start(code, offset):
        n = name(code)
        if n and code.co_name != "<module>":
            FUNCS.add(n + ":" + code.co_qualname)
        return mon.DISABLE

    try:
        mon.use_tool_id(mon.COVERAGE_ID, "verif-reach")
    except (ValueError, AttributeError):
        return
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, on_start)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE | mon.events.PY_START)
