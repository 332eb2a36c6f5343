from vlib import Check
from shapes import XMSS, XMSSMT
S = ['xmss_commons.c', 'wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c', 'xmss_core.c']
def check(tier):
    c = Check('C09', bounds='every bit of signature, message and public key symbolic; all 11 (height, layers) shapes x n in {24,32,64}; message lengths per job, including longer than the signature so that the two copies of the message overlap',
              outside='other message lengths; lengths shorter than a signature are rejected before anything is copied (C08)', cuts=['wots_pk_from_sig (C04)', 'thash_h (C02)', 'hash_message (C02): writes its prefix in front of the message, marked with a constant'])
    def j(h, d, n, mlen): c.job('rejected-h%d-d%d-n%d-m%d' % (h, d, n, mlen), 'C07.c', S, params=dict(n=n, h=h, d=d, mt=int(d > 1), mlen=mlen), defs=['-DCUT_H_', '-DCUT_PKSIG', '-DCUT_HMSG', '-DHMSG_MARK=0x5A'], entry='harness_c09', reach=['accepted', 'rejected'], labels=['no message byte left'], cost=d * n)
    for (h, d) in XMSS + XMSSMT:
        for n in (24, 32, 64):
            for mlen in ((33,) if tier == 'quick' else (0, 1, 33, 200)): j(h, d, n, mlen)
    for mlen in (0, 1, 32, 2000, 2500, 3500): j(10, 1, 32, mlen)
    j(20, 2, 32, 7000); j(10, 1, 64, 9500)
    if tier != 'quick': j(60, 3, 32, 30000); j(60, 12, 64, 2000)
    seen = {}; c.jobs = [seen.setdefault(x.name, x) for x in c.jobs if x.name not in seen]
    return c
