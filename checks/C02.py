from vlib import Check
NAMES = ['PRF', 'PRF_keygen', 'F', 'H', 'H_msg']
def check(tier):
    hi = 257 if tier == 'quick' else 1100
    c = Check('C02', bounds='all 7 supported (hash, n) combinations x padding 4, 32, 64; every key, input, 256-bit address, 64-bit index; F and H also in place; H_msg for every message of 0..%d bytes; unsupported: n in {16,20,28,48} and the unsupported pairs of n 24/32/64, every other 32-bit hash id' % (hi - 1),
              outside='messages longer than %d bytes (the code contains no loop over the message)' % (hi - 1), cuts=['SHA-256/SHA-512 (OpenSSL) and SHAKE128/256 (C03) are uninterpreted functions of (input length, input bytes)'])
    S = ['hash.c', 'hash_address.c', 'utils.c']
    for func, ns in ((0, (24, 32, 64)), (1, (32,)), (2, (24, 32, 64))):
        for n in ns:
            for pad in (4, 32, 64):
                for w in range(4): c.job('%s-f%d-n%d-p%d' % (NAMES[w], func, n, pad), 'C02.c', S, params=dict(what=w, func=func, n=n, pad=pad), reach=['end'], labels=[NAMES[w]])
                std = pad == (4 if n == 24 else n)
                step = 43 if std else 11; top = hi if std else 11
                for lo in range(0, top, step): c.job('H_msg-f%d-n%d-p%d-l%d' % (func, n, pad, lo), 'C02.c', S, params=dict(what=4, func=func, n=n, pad=pad, mlen=lo, count=min(step, top - lo)), reach=['end'], labels=['H_msg'])
    for func, ns in ((0, (16, 20, 28, 48)), (1, (16, 24, 28, 48, 64)), (2, (16, 28, 48)), (3, (24, 32, 64))):
        for n in ns: c.job('bad-f%d-n%d' % (func, n), 'C02.c', S, params=dict(bad=1, func=func, n=n, pad=32), reach=['bad'])
    return c
