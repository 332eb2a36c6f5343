"""the command line tools: every parameter set, both implementations"""
import os, vlib
from oids import X, M
def srcs(tool, mt, impl): return ['params.c', 'utils.c', 'xmss_core.c' if impl == 'ref' else 'xmss_core_fast.c', ('ui/%s.c' % tool, ['-include', os.path.join(vlib.VERIF, 'harness', 'ui.h')] + (['-DXMSSMT'] if mt else []))]
def defs(mt): return ['-DXSE_MT'] if mt else []
def sets():
    for mt, tab in ((0, X), (1, M)):
        for o, h, d, n in tab: yield mt, o
def nm(mt, o): return '%s%d' % ('mt' if mt else 'x', o)
