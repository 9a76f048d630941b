"""small helpers to write contracts"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tool'))
from translate import Contract

def C(qual, params='', req=(), ens=(), mod='', loops=(), uses='', **kw):
    return Contract(qual, params=params.split(), requires=list(req), ensures=list(ens), modifies=mod.split(),
                    loops=list(loops), uses=('Geom ' + uses).split(), **kw)

def L(vars='', inv=(), variant=None, **kw):
    vs = dict(v.split(':') for v in vars.split())
    return dict(vars=vs, inv=list(inv), variant=variant, **kw)
