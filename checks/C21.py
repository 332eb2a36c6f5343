from vlib import Check
import ui
def check(tier):
    c = Check('C21', bounds='each of the 77 parameter sets and both implementations; every byte of both files symbolic; every unknown 32-bit OID; key files truncated to 0, 3, 4 and one byte short, exact, and with 1 or 300 trailing bytes; signature files of 0, 1, sig_bytes-1, sig_bytes and sig_bytes+40 bytes; every library call fails or comes back short in one of the runs (any combination, any partial count); verification results 0, -1, -2; 0 to 4 arguments', outside='files that change during the run; other file lengths', cuts=['xmss_sign_open / xmssmt_sign_open (C07-C09, C19): any result', 'the C library: model in harness/ui_model.h'])
    def j(name, mt, impl, reach, labels=(), **p): c.job(name, 'C21.c', ui.srcs('open', mt, impl), defs=ui.defs(mt), params=p, reach=reach, labels=labels)
    for impl in ('ref', 'fast'):
        for mt, o in ui.sets(): j('open-%s-%s' % (impl, ui.nm(mt, o)), mt, impl, ['accepted', 'refused'], ['verifies the bytes in the file', 'exit 0 only after successful verification', 'valid signature accepted'], oid=o, tail=(0, 1, 300)[o % 3])
        for mt in (0, 1):
            for u, nm in ((1, 'oid'), (3, 'argc')): j('unknown-%s-%s-%s' % (nm, impl, 'mt' if mt else 'x'), mt, impl, ['refused'], unknown=u, oid=2)
            j('truncated-%s-%s' % (impl, 'mt' if mt else 'x'), mt, impl, ['refused'], oid=3, truncated=1)
    return c
