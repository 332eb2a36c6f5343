from vlib import Check
import core, oids
def check(tier):
    c = Check('C17', bounds='every parameter set with tree height 5 or 10 (thorough: 16), both implementations, all 3n random bytes symbolic', outside='tree heights 16 (quick) and 20: same code, more leaves', cuts=core.CUTS)
    for impl in ('ref', 'fast'):
        S = core.REF if impl == 'ref' else core.FAST
        for mt, tab in ((0, oids.X), (1, oids.M)):
            for o, h, d, n in tab:
                if h // d > (10 if tier == 'quick' else 16): continue
                c.job('key-%s-%s-oid%d' % (impl, 'mt' if mt else 'x', o), 'C16.c', S + ['xmss.c'], params=dict(mt=mt, oid=o), defs=core.D + (['-DSEEDED'] if impl == 'ref' else []), entry='harness_c17', reach=['end'], labels=['exactly 3n random bytes', 'root of the top tree in the public key', 'OID in both keys'] + (['seeded key pair is the same'] if impl == 'ref' else []), cost=d * n * 2 ** (h // d), mem=2500 if h // d <= 10 else 8000)
    return core.lower(c, 'C02', 'C03', 'C04', 'C06', 'C18', keep=lambda p, j: p != 'C04' or j.name.startswith('pkgen'))
