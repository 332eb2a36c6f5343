from vlib import Check
SRCS = ['wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c']
def check(tier):
    c = Check('C04', bounds='all seeds, addresses, messages and signatures (every bit symbolic), for all nine pairs n in {24,32,64} x w in {4,16,256}; every chain length and every start position', outside='other n or w', cuts=['thash_f (C02)', 'prf_keygen (C02)'])
    for w in (4, 16, 256):
        for n in (24, 32, 64):
            for what, nm in ((0, 'pkgen'), (1, 'sign'), (2, 'recover')):
                c.job('%s-w%d-n%d' % (nm, w, n), 'C04.c', SRCS, params=dict(what=what, n=n, w=w), defs=['-DCUT_F', '-DCUT_PRFK'], reach=['end'], cost=w*n, time=300)
    return c
