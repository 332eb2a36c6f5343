from vlib import Check
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, C02, C04, C06, C07, C19
from shapes import XMSS, XMSSMT
def check(tier):
    t = tier == 'thorough'
    c = Check('C15', bounds='two or three keys used alternately, moved between buffers, loaded in turn into one shared buffer, copied and resumed from older copies, over complete lives of trees h/d = 4/1, 5/1, 6/1, 6/2 (and parts of 8/2, 9/3, 12/3; complete on thorough), both implementations, bds_k 0 and 2, w 4/16/256; all seeds and messages (1 or 2 bytes) symbolic; every function below the cuts run after one unrelated call of itself with the same or another parameter set; the traversal state of all 11 shapes of the standard: every field over its full range survives a store and load', outside='other interleavings; use from several threads', cuts=core.CUTS)
    def j(impl, h, d, n=24, h2=6, d2=2, n2=32, steps=0, off=0, w=16, k=0, share=0): c.job('state-%s-h%d-d%d-n%d-k%d-w%d-o%d%s' % (impl, h, d, n, k, w, off, '-shared%d' % h2 if share else ''), 'C15.c', core.REF if impl == 'ref' else core.FAST, params=dict(h=h, d=d, n=n, h2=h2, d2=d2, n2=n2, steps=steps, off=off, w=w, k=k, share=share), defs=core.D, reach=['end'], labels=['same state after signing from a copy', 'signature of this key and index'], cost=2 ** (h // d) * (steps or 2 ** h) * d)
    for impl in ('ref', 'fast'):
        for off in range(6) if t else (0, 1):
            j(impl, 4, 1, off=off); j(impl, 5, 1, h2=4, d2=1, n2=24, off=off); j(impl, 6, 2, h2=3, d2=1, off=off, n=32); j(impl, 8, 2, h2=6, d2=2, n2=24, off=off, steps=0 if t else 60)
    j('fast', 9, 3, h2=6, d2=2, n2=24, steps=0 if t else 150, off=2); j('fast', 6, 1, k=2, h2=8, d2=2, off=3); j('fast', 12, 3, n=24, h2=6, d2=2, n2=24, off=4, steps=600 if t else 70); j('fast', 6, 2, w=256, n=24, off=5); j('fast', 6, 2, w=4, n=64, off=1)
    for impl in ('ref', 'fast'): # all keys are loaded into the same buffers
        for off in range(6) if t else (1, 5):
            for h, d in ((6, 2), (9, 3)): j(impl, h, d, h2=h, d2=d, n2=24, off=off, share=1, steps=0 if t else 70)
            j(impl, 4, 1, h2=4, d2=1, n2=24, off=off, share=1); j(impl, 5, 1, h2=6, d2=2, off=off, share=1)
    # a second, unrelated call of a function below the cuts
    def twice(chk, rx, **p):
        import re
        for x in chk.jobs:
            if re.fullmatch(rx, x.name): x.params.update(p, twice=1); x.name = 'twice-' + x.name + ''.join('-%s%s' % kv for kv in sorted(p.items())); x.time = 600; c.jobs.append(x)
    std = {24: 4, 32: 32, 64: 64}
    for f, n in ((0, 24), (0, 32), (0, 64), (1, 32), (2, 24), (2, 32), (2, 64)):
        f2, n2 = {(0, 24): (2, 24), (0, 32): (0, 24), (0, 64): (0, 32), (1, 32): (2, 32), (2, 24): (2, 64), (2, 32): (1, 32), (2, 64): (0, 64)}[f, n]
        for a, b in ((f, n), (f2, n2)): twice(C02.check(tier), '(PRF|PRF_keygen|F|H)-f%d-n%d-p%d|H_msg-f%d-n%d-p%d-l0' % (f, n, std[n], f, n, std[n]), func2=a, n2=b, pad2=std[b])
    for n, n2, w, w2 in ((24, 24, 16, 16), (32, 32, 16, 16), (32, 24, 16, 16), (64, 32, 16, 4)): twice(C04.check(tier), '.*-w%d-n%d' % (w, n), n2=n2, w2=w2)
    twice(C06.check(tier), 'leaf-w16-n(24|32)'); twice(C07.check('quick'), 'open-h(10-d1|20-d2)-n(24|32)-w16-m33'); twice(C19.check(tier), '.*')
    for h, d in XMSS + XMSSMT:
        for k in (0, 2): c.job('roundtrip-h%d-d%d-k%d' % (h, d, k), 'C15w.c', [x for x in core.FAST if x != 'xmss_core_fast.c'], params=dict(n=24, h=h, d=d, mt=int(d > 1), k=k), defs=core.D, reach=['end'], labels=['treehash instance survives'], optional=True)
    return c
