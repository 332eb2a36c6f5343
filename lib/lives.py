"""lives of keys of the fast implementation (harness/C14.c)"""
import core
LIVES = ((3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (10, 1), (6, 2), (8, 2), (10, 2), (9, 3), (12, 2), (12, 3), (12, 4))
def jobs(c, tier, prop, labels):
    def j(h, d, n=24, steps=0, w=16, k=0, mem=3000, time=800, tag=0): c.job('life-h%d-d%d-n%d-w%d-k%d-s%d%s' % (h, d, n, w, k, steps, '-tag' if tag else ''), 'C14.c', core.FAST, params=dict(n=n, h=h, d=d, mt=int(d > 1), w=w, k=k, steps=steps, prop=prop, flat=2 if tag else 0), defs=core.D, reach=['end'] + (['updates happen'] if prop == 24 and h > 4 else []) + ([] if steps else ['exhausted']), labels=labels, cost=d * n * (steps or 2 ** h) + 2 ** (h // d) * 10, mem=mem, time=time)
    for h, d in LIVES: j(h, d)
    for n in (32, 64): j(10, 1, n=n)
    for h, d, k in ((6, 1, 2), (8, 1, 2), (8, 1, 4), (8, 2, 2), (12, 2, 2), (12, 2, 4), (12, 3, 2)): j(h, d, n=4, k=k)
    j(14, 2, n=4); j(15, 5, n=4, mem=4000); j(15, 3, n=2, mem=4000); j(16, 4, n=2, steps=34000, mem=4000); j(20, 4, n=4, w=256, steps=34000, mem=4000)
    j(8, 1, tag=1); j(16, 1, n=24, steps=1500, tag=1); j(20, 1, steps=64, tag=1); j(20, 2, steps=3000, tag=1); 
    if tier == 'thorough':
        j(40, 2, steps=16, tag=1); j(60, 3, steps=16, tag=1); 
        for h, d, steps in ((16, 1, 0), (20, 2, 100000), (20, 4, 100000), (40, 4, 40000), (20, 1, 70000)): j(h, d, n=16, w=256, steps=steps, tag=1, mem=12000, time=6000)
        j(16, 4, n=2, mem=12000, time=6000); j(20, 4, n=2, w=256, steps=200000, mem=12000, time=6000); j(40, 8, n=2, w=256, steps=70000, mem=12000, time=6000); j(14, 2, n=24, mem=8000); j(12, 4, n=64, mem=8000)
