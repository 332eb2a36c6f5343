from vlib import Check
SRCS = ['wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c']
def check(tier):
    c = Check('C05', bounds='how far every chain is revealed by the real wots_sign, for all pairs of messages (every bit symbolic), all nine pairs n in {24,32,64} x w in {4,16,256}; the chain lengths equal the base-w digits of message and checksum, different messages differ in a digit, the checksum falls as digits grow (induction step over all digit values and partial sums), a larger checksum has a larger digit', outside='other n or w; the unrolling of the induction step over the digits is by hand', cuts=['thash_f (C02)', 'prf_keygen (C02)'])
    for w in (4, 16, 256):
        for n in (24, 32, 64): c.job('two-w%d-n%d' % (w, n), 'C05.c', SRCS, params=dict(n=n, w=w), defs=['-DCUT_PRFK'], reach=['digits', 'step', 'end'], labels=['a larger checksum has a larger digit'], cost=w * n, time=600)
    return c
