"""Which lines of the library ran: sys.monitoring, each line reported once per process (negligible cost)."""
import os
import sys
import types

from . import repo

HIT = set()
_PKG = os.path.join(os.path.abspath(repo.REPO), 'pyrtlib') + os.sep
_TOOL = 4


def _line(code, line):
    f = code.co_filename
    if f.startswith(_PKG) and f'{os.sep}tests{os.sep}' not in f:
        HIT.add('%s:%d' % (f[len(_PKG):], line))
    return sys.monitoring.DISABLE


def start():
    """returns False when another tool holds the slot: then nothing is recorded."""
    try:
        m = sys.monitoring
        m.use_tool_id(_TOOL, 'verif')
        m.register_callback(_TOOL, m.events.LINE, _line)
        m.set_events(_TOOL, m.events.LINE)
        return True
    except (AttributeError, ValueError):
        return False


def take():
    new = sorted(HIT)
    HIT.clear()
    return new


def _walk(code, out):
    out.update(ln for _, _, ln in code.co_lines() if ln and ln != code.co_firstlineno)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def executable(name):
    """lines inside functions of one file (module level code runs on import)."""
    path = _PKG + name
    out = set()
    try:
        top = compile(open(path, encoding='utf-8').read(), path, 'exec')
    except (OSError, SyntaxError):
        return out

    def rec(code, inside):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                if inside or c.co_flags & 0x1:      # a function (not a class body)
                    _walk(c, out)
                else:
                    rec(c, False)
    rec(top, False)
    return out
