from vlib import Check, exported
def check(tier):
    q = tier == 'quick'; top = 352 if q else 1104; cut = 'KeccakF1600_StatePermute' in exported('fips202.c')
    c = Check('C03', bounds='permutation: every 1600-bit state. Sponge: every input length 0..%d at output length 32 and every output length 0..%d at input length 96 (both functions), plus input lengths 500, 1000, 2000; all input bytes symbolic' % (top - 1, top - 1),
        outside='longer inputs and outputs (the absorbing and squeezing loops beyond the unrolled blocks); null pointers; overlapping buffers',
        assumptions=['little-endian host (the specification side reads and writes lanes with memcpy)'],
        cuts=['the sponge jobs read KeccakF1600_StatePermute as an uninterpreted function of the 200-byte state; the job "permutation" shows the function equals Keccak-f[1600] for every state; the end-to-end jobs use no cut'] if cut else [])
    S = dict(harness='C03.c', srcs=['fips202.c'], reach=['end'], labels=['output equals FIPS 202', 'input unchanged'], mem=2500, time=400)
    W = dict(S, flags=['--wordops'])
    step = 16
    if cut: c.job('permutation', **dict(W, defs=['-DPERM'], labels=['permutation equals Keccak-f[1600]'], entry='harness_perm'))
    L = dict(S, defs=['-DCUT_KECCAK']) if cut else W
    for w in (128, 256):
        for i in range(0 if cut else 96, top, step):
            c.job('shake%d-in%d' % (w, i), params=dict(which=w, inlen=i, incount=step, outlen=32), cost=1 + i // 100, **L)
            c.job('shake%d-out%d' % (w, i), params=dict(which=w, inlen=96, outlen=i, outcount=step), cost=1 + i // 100, **L)
        for n in (500, 1000, 2000): c.job('shake%d-long%d' % (w, n), params=dict(which=w, inlen=n, outlen=64), cost=5, **L)
        c.job('shake%d-const' % w, params=dict(which=w, inlen=0, outlen=400), **W)
        for n in ((96, 128) if q else (96, 128, 500)): c.job('shake%d-end2end%d' % (w, n), params=dict(which=w, inlen=n, outlen=64), **W)
    return c
