"""Runs of the abstract interpreter over the driver programs (memoised per process)."""
from . import drivers
from .absint import Interp
from .program import Program

_prog = {}
_runs = {}


def subst(src, level, info):
    return src.replace('@PL@', level).replace('@PI@', info)


def program(level='some_int()', info='some_bool()'):
    k = (level, info)
    if k not in _prog:
        p = Program()
        for n in dir(drivers):
            v = getattr(drivers, n)
            if n.isupper() and isinstance(v, str):
                p.add_source('verif_' + n.lower(), subst(v, level, info))
        _prog[k] = p
    return _prog[k]


def run(name, level='some_int()', info='some_bool()'):
    k = (name, level, info)
    if k not in _runs:
        _runs[k] = Interp(program(level, info)).run(['verif_' + name])
    return _runs[k]


LEARNERS = ['learners_det', 'learners_adaptive', 'learners_nondet', 'learners_stoch', 'learners_passive']
ALL = ['oracles'] + LEARNERS + ['learners_stoch_pbs', 'inspect', 'step', 'tools', 'misc', 'external', 'load']


def path(it, ctx):
    try:
        return [' -> '.join(it.path_to(ctx))]
    except Exception:
        return []


def in_lib(node):
    return node.mod.name.split('.')[0] == 'aalpy'
