"""Which functions of folx were executed while a case was traced."""
from __future__ import annotations

import os
import sys

REPO = os.environ.get('FOLX_REPO', '/repo')
_seen = set()
_TOOL = 4


def _on_start(code, offset):
    f = code.co_filename
    if '/folx/' in f and f.startswith(REPO):
        _seen.add(f'{f[len(REPO) + 1:]}:{code.co_qualname}')
        return None
    return sys.monitoring.DISABLE


def start():
    _seen.clear()
    m = sys.monitoring
    if m.get_tool(_TOOL) is None:
        m.use_tool_id(_TOOL, 'symfolx')
        m.register_callback(_TOOL, m.events.PY_START, _on_start)
    m.set_events(_TOOL, m.events.PY_START)


def stop():
    sys.monitoring.set_events(_TOOL, 0)
    return sorted(_seen)
