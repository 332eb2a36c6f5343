from vlib import Check
from oids import X, M
import ui
def check(tier):
    c = Check('C22', bounds='the names of all 77 parameter sets, built from their RFC components; every other NUL-terminated string of up to 25 characters (lengths 0, 5, ..., 25 on quick, every length on thorough); every key pair content; every combination of failing key generation, failing or short writes (any partial count) and failing flush; 0 to 4 arguments', outside='longer names', cuts=['xmss_keypair / xmssmt_keypair (C17, C19): any key pair, results 0 and -1', 'the C library: model in harness/ui_model.h'])
    def j(name, mt, impl, reach, labels=(), **p): c.job(name, 'C22.c', ui.srcs('keypair', mt, impl), defs=ui.defs(mt), params=p, reach=reach, labels=labels)
    for impl in ('ref', 'fast'):
        for mt, tab in ((0, X), (1, M)):
            for i, (o, h, d, n) in enumerate(tab):
                g = i // (len(tab) // 7); hf = (0, 0, 1, 1, 0, 2, 2)[g]
                j('keypair-%s-%s' % (impl, ui.nm(mt, o)), mt, impl, ['output', 'refused', 'ok', 'write error'], ['public key, then secret key', 'exit 0 only if everything was written', 'exit 0 only if everything was flushed'], oid=o, h=h, d=d, n=n, hash=hf)
        for mt in (0, 1):
            for l in range(0, 26, 1 if tier == 'thorough' else 5): j('unknown-%s-%s-l%d' % (impl, 'mt' if mt else 'x', l), mt, impl, ['refused'], unknown=1, len=l)
            j('argc-%s-%s' % (impl, 'mt' if mt else 'x'), mt, impl, ['refused'], unknown=3)
    return c
