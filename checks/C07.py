from vlib import Check
import core
from shapes import XMSS, XMSSMT
D = ['-DCUT_H_', '-DCUT_PKSIG', '-DCUT_HMSG']
S = ['xmss_commons.c', 'wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c']
def check(tier):
    c = Check('C07', bounds='every bit of signature, message and public key symbolic, including every value of the index field; all 11 (height, layers) shapes of the standard x n in {24,32,64} with w=16, plus w=4 and w=256; message lengths listed per job',
              outside='message lengths other than those listed (C08 covers every length for memory safety); for an index field that encodes a value of 2^h or more only "accepts only if" is claimed, with the surplus bits entering the tree address and H_msg as the code defines it',
              cuts=['wots_pk_from_sig (C04)', 'thash_h (C02)', 'hash_message (C02)'])
    def j(h, d, n, mlen, w=16): c.job('open-h%d-d%d-n%d-w%d-m%d' % (h, d, n, w, mlen), 'C07.c', S, params=dict(n=n, h=h, d=d, mt=int(d > 1), mlen=mlen, w=w), defs=D, reach=['accepted', 'rejected'], labels=['message returned'], cost=d * n)
    for (h, d) in XMSS + XMSSMT:
        for n in (24, 32, 64):
            for mlen in ((33,) if tier == 'quick' else (0, 1, 33, 136, 1000)): j(h, d, n, mlen)
    for mlen in (0, 1, 200): j(10, 1, 32, mlen); j(20, 2, 32, mlen)
    for w in (4, 256):
        for (h, d) in ((10, 1), (20, 4)):
            for n in (24, 32, 64): j(h, d, n, 33, w)
    if tier != 'quick':
        for (h, d) in ((4, 1), (5, 1), (30, 1), (6, 2), (6, 3), (12, 4), (63, 7), (63, 9)): j(h, d, 32, 33)
    seen = {}; c.jobs = [seen.setdefault(x.name, x) for x in c.jobs if x.name not in seen]
    return core.lower(c, 'C02', 'C03', 'C04', keep=lambda p, j: p != 'C04' or j.name.startswith('recover'))
