from vlib import Check
from shapes import XMSS, XMSSMT
import core, oids
D = core.D; L = [x for x in core.D if x != '-DCUT_HMSG'] + ['-DLEN']; W = ['-Dmemcpy=xs_memcpy', '-Dmemmove=xs_memmove']
def check(tier):
    c = Check('C16', bounds='key pair and 2 to 34 signatures through the API for every parameter set with tree height 5 or 10 and (fast, n=24; thorough: all) 16, all randomness and messages symbolic, every buffer exactly as large as documented, every load and store checked; messages of every length 0..40 with contents and of every length up to 4 GiB by address ranges (tree heights 5 and 10)', outside='tree height 20 (same code, more iterations; -tag jobs of C14 run it with checked memory); later indices than listed here (C14 runs whole lives with checked memory)', cuts=core.CUTS)
    lim = 10
    for impl in ('ref', 'fast'):
        S = core.REF if impl == 'ref' else core.FAST; cf = 'xmss_core.c' if impl == 'ref' else 'xmss_core_fast.c'
        def a(mt, o, h, d, n, steps, frm=0, flat=0, mlen=1): c.job('api-%s-%s-oid%d-s%d%s' % (impl, 'mt' if mt else 'x', o, steps, '-flat' if flat else ''), 'C16.c', S + ['xmss.c'], params={'mt': mt, 'oid': o, 'steps': steps, 'from': frm, 'flat': flat, 'mlen': mlen}, defs=D, reach=['end'], labels=['public key written completely', 'secret key written completely', 'signed message written completely'], cost=d * n * 2 ** (h // d) * (2 if steps > 5 else 1), mem=2500 if h // d < 16 else 6000)
        for mt, tab in ((0, oids.X), (1, oids.M)):
            for o, h, d, n in tab:
                if h // d <= 10: a(mt, o, h, d, n, (34 if n == 24 else 3) if h // d == 5 and impl == 'fast' else 2)
                elif tier == 'thorough' or (h // d == 16 and n == 24 and impl == 'fast'): a(mt, o, h, d, n, 1, flat=1)
        for h, d in XMSS + XMSSMT:
            if h // d > 10: continue
            for n in (24, 32, 64) if tier == 'thorough' else (32,):
                p = dict(n=n, h=h, d=d, mt=int(d > 1))
                c.job('len-%s-h%d-d%d-n%d' % (impl, h, d, n), 'C16.c', S, params=dict(p, cap=40), defs=L, entry='harness_len', reach=['end'], labels=['message copied'], cost=d * n * 2 ** (h // d))
                c.job('huge-%s-h%d-d%d-n%d' % (impl, h, d, n), 'C16.c', [x for x in S if x != cf] + [(cf, W)], params=dict(p, cap=0, max=(1 << 32) + (1 << 20)), defs=L + ['-DWIDE'], entry='harness_len', reach=['end'], cost=d * n * 2 ** (h // d))
    return core.lower(c, 'C02', 'C03', 'C04', 'C06', 'C18', keep=lambda p, j: p != 'C04' or not j.name.startswith('recover'))
