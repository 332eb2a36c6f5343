from vlib import Check
SRCS = ['xmss_commons.c', 'wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c']
def check(tier):
    c = Check('C06', bounds='all seeds, public seeds and address words (every bit symbolic) for all nine shapes n in {24,32,64} x w in {4,16,256}; loops unrolled completely for each shape', outside='other n or w; callers that pass an L-tree address of another type', cuts=['wots_pkgen (decided by C04)', 'thash_h (decided by C02)'])
    for w in (4, 16, 256):
        for n in (24, 32, 64): c.job('leaf-w%d-n%d' % (w, n), 'C06.c', SRCS, params=dict(n=n, w=w), defs=['-DCUT_H_', '-DCUT_PKGEN'], reach=['end'], labels=['leaf'])
    return c
