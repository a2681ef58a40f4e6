"""Which functions and lines of elphmod a run executed (sys.monitoring)."""

import sys

from vmon.core import PKG

functions = set()
lines = set()


def start():
    m = sys.monitoring
    tool = m.COVERAGE_ID
    try:
        m.use_tool_id(tool, 'vmon')
    except ValueError:
        return

    def on_start(code, offset):
        if code.co_filename.startswith(PKG):
            functions.add('%s:%s' % (code.co_filename[len(PKG):],
                code.co_qualname))
        return m.DISABLE

    def on_line(code, line):
        if code.co_filename.startswith(PKG):
            lines.add((code.co_filename[len(PKG):], line))
        return m.DISABLE

    m.register_callback(tool, m.events.PY_START, on_start)
    m.register_callback(tool, m.events.LINE, on_line)
    m.set_events(tool, m.events.PY_START | m.events.LINE)
