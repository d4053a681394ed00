"""Symbolic entry-point invocations."""
import json
from terms import *
from engine import Engine, St, AnalysisError
import models

INP = lambda n: mk('in', n)
DEPS = 'cosmwasm_std::deps::DepsMut'

def deps(): return agg(DEPS, 'DepsMut', ['storage', 'api', 'querier'], [INP('storage'), INP('api'), INP('querier')])

ENV = INP('env')
INFO = INP('info')

def struct_input(E, adt, variant, prefix):
    """aggregate of the given variant with one symbolic input per field"""
    a = E.adts[adt]
    for v in a['variants']:
        if v['name'] == variant:
            vals = []
            for f in v['fields']:
                t = INP(prefix + f['name'] if not f['name'].isdigit() else prefix + 'arg' + f['name'])
                if f['ty'] in INTS: INT.add(t.id)
                vals.append(t)
            return agg(adt, variant, [f['name'] for f in v['fields']], vals)
    raise AnalysisError('no variant %s::%s' % (adt, variant))

from engine import INT_TY as INTS

class Run:
    """result of analysing one entry point for one message"""
    def __init__(self, E, name, ret, st, effects, loops):
        self.E, self.name, self.ret, self.st, self.effects, self.loops = E, name, ret, st, effects, loops
        self.pc = st.pc
        self.ok = and_(st.pc, isvar(ret, 'Ok')) if ret is not None else FALSE
        self.okval = restrict(pl(ret, 'Ok', '0'), self.ok) if ret is not None and self.ok is not FALSE else None

def run(E, path, args, name, pre=TRUE):
    fid = E.bypath.get(path)
    if fid is None: raise AnalysisError('function %s not found' % path)
    E.effects = []; E.loops = {}
    E.fn = E.cfg(fid); E.span = ''
    st = St({}, {}, pre)
    E.cur = ('entry', 0, ())
    r = E.run(E.cfg(fid), E.ctx(0, fid, name), args, st)
    return Run(E, name, r, st, E.effects, E.loops)
