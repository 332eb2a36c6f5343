from vlib import Check
def check(tier):
    c = Check('C25', bounds='every 64-bit value; every byte string of each length; output lengths 1..%d (every length used in the code is 1..64), input lengths 1..8' % (72 if tier == 'quick' else 80), outside='bytes_to_ull on more than 8 bytes (keeps the low 64 bits; never used so)', assumptions=['LLVM IR of clang 18 -O0 plus scalar cleanup passes represents the compiled program'])
    for n in range(1, 73 if tier == 'quick' else 81): c.job('len%d' % n, 'C25.c', ['utils.c'], params={'n': n}, reach=['end'], labels=['big-endian value modulo 256^len'])
    return c
