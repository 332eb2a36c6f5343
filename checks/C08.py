from vlib import Check
import core
from shapes import XMSS, XMSSMT
SRCS = ['wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c']
D = ['-DCUT_H_', '-DCUT_PKSIG']
W = ['-DWIDE', '-Dmemcpy=xs_memcpy', '-Dmemset=xs_memset']
def check(tier):
    c = Check('C08', bounds='every length 0..sig_bytes+40 of the signed message, byte-exact memory objects of that length, all contents symbolic (all-lengths jobs); every length 0..2^32+2^20 as one 64-bit symbolic value with the range of every access asserted (huge jobs); 11 (height, layers) shapes x n in {24,32,64}, w=16',
              outside='lengths above 2^32+2^20; output buffer that overlaps the input', cuts=['wots_pk_from_sig (C04)', 'thash_h (C02)', 'in the huge jobs memcpy/memset of symbolic length are replaced by an assertion that the whole range lies in one object (and of that access direction)'])
    for (h, d) in XMSS + XMSSMT:
        for n in (24, 32, 64):
            p = dict(n=n, h=h, d=d, mt=int(d > 1))
            c.job('all-lengths-h%d-d%d-n%d' % (h, d, n), 'C08.c', SRCS + ['xmss_commons.c'], params=dict(p, cap=40), defs=D, reach=['accepted', 'rejected', 'short'], labels=['message length'], cost=d * n)
            c.job('huge-h%d-d%d-n%d' % (h, d, n), 'C08.c', SRCS + [('xmss_commons.c', W[1:])], params=dict(p, cap=0, max=(1 << 32) + (1 << 20)), defs=D + ['-DWIDE'], reach=['accepted', 'rejected', 'short'], cost=d * n)
    return core.lower(c, 'C02', 'C03', 'C04', keep=lambda p, j: p != 'C04' or j.name.startswith('recover'))
