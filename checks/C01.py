from vlib import Check
def check(tier):
    c = Check('C01', bounds='every 32-bit OID and every string of at most 32 bytes for both families; all 77 registered sets; custom sets: w in {4,16,256}, n in {24,32,64}, d 1..12, every tree height with full height <= 64, every other 32-bit w',
              outside='names longer than 32 bytes (the longest registered name has 24)', assumptions=['strcmp/strncmp modelled by their C definition', 'params struct of the caller is arbitrary except bds_k, which parse_oid sets'])
    for mt in (0, 1):
        for impl, core in (('ref', 'xmss_core.c'), ('fast', 'xmss_core_fast.c')):
            S = ['params.c', core, 'xmss_commons.c', 'wots.c', 'hash.c', 'hash_address.c', 'utils.c', 'fips202.c', 'randombytes.c']
            H = 'C01.c'; P = dict(mt=mt, ref=int(impl == 'ref'))
            c.job('oid-%d-%s' % (mt, impl), H, S, params=dict(P, mode=0), reach=['oid'])
            c.job('sets-%d-%s' % (mt, impl), H, S, params=dict(P, mode=1), reach=['set'])
        c.job('names-%d' % mt, H, S, params=dict(P, mode=2), reach=['name'])
    for d in range(1, 13): c.job('custom-d%d' % d, H, ['params.c', 'xmss_core.c', 'xmss_commons.c', 'wots.c', 'hash.c', 'hash_address.c', 'utils.c', 'fips202.c', 'randombytes.c'], params=dict(mode=3, d=d, ref=1), reach=['custom'])
    c.job('badw', H, S, params=dict(mode=4, ref=0), reach=['badw'])
    return c
