"""both implementations of the core, with the cuts used by the signing checks"""
D = ['-DCUT_H_', '-DCUT_HMSG', '-DCUT_PRF', '-DCUT_LEAF', '-DCUT_WOTSSIG']
COMMON = ['xmss_commons.c', 'wots.c', 'hash_address.c', 'hash.c', 'utils.c', 'params.c', 'fips202.c']
REF, FAST = COMMON + ['xmss_core.c'], COMMON + ['xmss_core_fast.c']
CUTS = ['gen_leaf_wots (C06)', 'wots_sign (C04)', 'prf, hash_message, thash_h (C02)', 'randombytes (C18)']

def lower(c, *props, tier='quick', keep=None):
    """The checks of whole operations replace the hash layer, WOTS+ and the leaves by uninterpreted functions ("cuts").
    What those functions compute is part of the guarantee too, so the deciding jobs of the cut functions run again here;
    a change below the cut then shows up in every property that rests on it, not only in the property of that layer."""
    import importlib.util, os, vlib
    for p in props:
        spec = importlib.util.spec_from_file_location('low_' + p, os.path.join(vlib.VERIF, 'checks', p + '.py')); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for j in m.check('quick').jobs:
            if keep and not keep(p, j): continue
            j.name = 'low-%s-%s' % (p, j.name); j.cost = j.cost / 1000; c.jobs.append(j)
    c.cuts.append('the functions behind the cuts are decided in this check as well by the jobs low-<property>-*, which are those of %s' % ', '.join(props))
    return c
