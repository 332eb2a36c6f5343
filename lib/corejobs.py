from shapes import XMSS, XMSSMT
import core
def jobs(c, entry, reach, labels, tier, name):
    def j(impl, h, d, n, w=16, k=0, flat=0): c.job('%s-%s-h%d-d%d-n%d-w%d-k%d%s' % (name, impl, h, d, n, w, k, '-flat' if flat else ''), 'C12.c', core.REF if impl == 'ref' else core.FAST, params=dict(n=n, h=h, d=d, mt=int(d > 1), w=w, k=k, flat=flat), defs=core.D, entry=entry, reach=reach(h, d), labels=labels, cost=d * n * 2 ** (h // d))
    for impl in ('ref', 'fast'):
        for (h, d) in XMSS + XMSSMT:
            if h // d > 10: continue
            for n in (24, 32, 64): j(impl, h, d, n)
        for (h, d) in ((8, 2), (16, 4), (32, 8)): j(impl, h, d, 24)
        for (h, d) in (((16, 1), (20, 1)) + (((40, 2), (60, 3)) if tier == 'thorough' else ()) if impl == 'fast' else ((16, 1),) if name == 'last' else ()): j(impl, h, d, 24, flat=1)
