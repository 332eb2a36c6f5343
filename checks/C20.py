from vlib import Check
import ui
def check(tier):
    c = Check('C20', bounds='each of the 77 parameter sets, both implementations, and 18 files whose two OIDs differ; every byte of key file, message, signature and updated key symbolic; every unknown 32-bit OID in either place; message lengths 0, 1, 37, 200 (one of them for some sets); every library call fails or comes back short in one of the runs (any combination, any partial count); trailing bytes after the key in some jobs; 0 to 4 arguments', outside='a key file changed by another process during the run; durability below fflush (the kernel, the disk)', cuts=['xmss_sign / xmssmt_sign (C10-C14, C19): any signature and any new key, results 0, -1, -2', 'the C library: model in harness/ui_model.h; buffered data counts as stored only after a successful fflush, fclose or fseek'])
    def j(name, mt, impl, reach, labels=(), **p): c.job(name, 'C20.c', ui.srcs('sign', mt, impl), defs=ui.defs(mt), params=p, reach=reach, labels=labels)
    for impl in ('ref', 'fast'):
        for mt, o in ui.sets(): j('sign-%s-%s' % (impl, ui.nm(mt, o)), mt, impl, ['output', 'failed', 'ok'], ['updated key is on disk before output', 'rest of the key file unchanged'], oid=o, lens=1 if o % 4 else 4, extra=o % 3)
        for mt in (0, 1):
            for u, nm in ((1, 'pk-oid'), (2, 'sk-oid'), (3, 'argc')): j('unknown-%s-%s-%s' % (nm, impl, 'mt' if mt else 'x'), mt, impl, ['unknown'], unknown=u, oid=2)
            for a, b in ((1, 5), (5, 1), (13, 4), (4, 13), (9, 20)) if not mt else ((1, 9), (8, 33), (33, 16), (41, 1)): j('mixed-%s-%s-%d' % (impl, ui.nm(mt, a), b), mt, impl, ['output', 'failed', 'ok'], ['updated key is on disk before output'], oid=a, oid2=b, extra=5)
    return c
