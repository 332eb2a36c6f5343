from vlib import Check
import core
from shapes import XMSS, XMSSMT
D = ['-DCUT_H_', '-DCUT_HMSG', '-DCUT_PRF', '-DCUT_LEAF', '-DCUT_WOTSSIG']
S = ['xmss_commons.c', 'wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c', 'randombytes.c']
def check(tier):
    c = Check('C10', bounds='every index (one symbolic value over the full range), every secret key byte and message byte symbolic, for the registered shapes with tree height 5 and 10 (10/1, 20/2, 20/4, 40/4, 40/8, 60/6, 60/12) and 4/1, 4/2, n in {24,32,64}, messages of 33 bytes, output compared byte for byte; for tree heights 16 and 20 selected indices with nodes abstracted to tags that name layer, tree, level and position (-tag jobs)', outside='for tree heights 16 and 20 other indices than the listed ones; other message lengths (C16 covers every length for memory safety and copying)', cuts=['gen_leaf_wots (C06)', 'wots_sign (C04)', 'prf, hash_message, thash_h (C02)'])
    def j(h, d, n, mlen=33, w=16, tag=0, idx=0): c.job('sign-h%d-d%d-n%d-w%d-m%d%s' % (h, d, n, w, mlen, '-tag-i%d' % idx if tag else ''), 'C10.c', S, params=dict(n=n, h=h, d=d, mt=int(d > 1), mlen=mlen, w=w, flat=2 if tag else 0, idx=idx), defs=D, reach=['signed'], labels=['authentication path'], cost=d * n * 2 ** (h // d))
    for (h, d) in XMSS + XMSSMT:
        if h // d > 10: continue
        for n in (24, 32, 64): j(h, d, n)
    j(4, 1, 32); j(4, 2, 32); 
    for h, d in ((10, 1), (16, 1), (20, 1)) + (((40, 2), (60, 3)) if tier == 'thorough' else ()):
        for idx in (() if h == 20 and tier == 'quick' else (0, (1 << h) - 2)) + (int('1100101' * 9, 2) & ((1 << h) - 1),) + ((1 << (h - 1), (1 << h) // 3) if tier == 'thorough' else ()): j(h, d, 24, tag=1, idx=idx)
    return core.lower(c, 'C02', 'C03', 'C04', 'C06', keep=lambda p, j: p != 'C04' or not j.name.startswith('recover'))
