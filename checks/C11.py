from vlib import Check
import core
D = ['-DCUT_H_', '-DCUT_HMSG', '-DCUT_PRF', '-DCUT_PKGEN', '-DCUT_WOTSSIG']
def check(tier):
    c = Check('C11', bounds='all randomness and messages (every bit symbolic); every index of the whole key life for tree heights 3..5 with one layer, 4/2, 6/2, 6/3 (reference) and 8/2, 6/2, 9/3 (fast), w=256; every index of height 5, one layer, n in {24,32,64}, w=16; the registered shapes 20/4, 40/8, 60/12 for n in {24,32,64} at index 0, 1, 31, an alternating pattern and 2^h-2 (reference) and for the first two indices (fast); message lengths 0, 1 and 33', outside='heights 10, 16 and 20 per tree and indices not listed: there the property follows from C10, C14, C07 and C04 together rather than from one run', cuts=['wots_pkgen, wots_sign, wots_pk_from_sig (C04)', 'prf, hash_message, thash_h (C02)', 'randombytes (C18)'])
    def j(impl, h, d, n, w=16, frm=0, count=0, mlen=1, sym=0, mem=3000): c.job('%s-h%d-d%d-n%d-w%d-m%d-%s' % (impl, h, d, n, w, mlen, 'sym' if sym else 'i%d+%d' % (frm, count)), 'C11.c', core.REF if impl == 'ref' else core.FAST, params=dict(n=n, h=h, d=d, mt=int(d > 1), w=w, **{'from': frm}, count=count, mlen=mlen, symidx=sym), defs=D, reach=['end'], labels=['signature verifies'], cost=n * (count or 2 ** h) * 2 ** (h // d), mem=mem)
    for impl in ('ref', 'fast'):
        for h, d in ((3, 1), (4, 1), (5, 1), (4, 2) if impl == 'ref' else (8, 2), (6, 2), (6, 3) if impl == 'ref' else (9, 3)): j(impl, h, d, 24, w=256)
        for n in (24, 32, 64): j(impl, 5, 1, n); j(impl, 20, 4, n, count=2)
    for n in (24, 32, 64):
        for h, d in ((20, 4), (40, 8), (60, 12)):
            for i in ((1 << (h // d)) - 1, (1 << h) - 2, int('5' * 16, 16) & ((1 << h) - 1)): j('ref', h, d, n, frm=i, count=1)
    for impl in ('ref', 'fast'):
        for mlen in (0, 33): j(impl, 5, 1, 24, w=256, mlen=mlen)
    j('fast', 40, 8, 24, count=2); j('fast', 60, 12, 24, count=2)
    if tier == 'thorough':
        for impl in ('ref', 'fast'):
            for h, d in ((6, 1), (7, 1), (8, 2), (9, 3), (8, 4)): 
                if impl == 'ref' or h // d > 2: j(impl, h, d, 32, w=256, mem=6000)
            j(impl, 10, 1, 24, count=3, mem=8000); j(impl, 20, 2, 24, count=1, mem=12000)
    return core.lower(c, 'C02', 'C03', 'C04')
