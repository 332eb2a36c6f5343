from vlib import Check
R = [('randombytes.c', ['-Dopen=xs_open', '-Dopenat=xs_openat', '-Dclose=xs_close', '-Dread=xs_read', '-Dsleep=xs_sleep', '-Dusleep=xs_usleep', '-D__errno_location=xs_errno'])]
def check(tier):
    t = tier == 'thorough'
    c = Check('C18', bounds='byte by byte: requests of 0, 1, 2, 3 (two calls each) and 5 bytes (thorough: 8) with any schedule of up to 5 reads and 2 opens; with addresses and lengths only: every length below 4 MiB (16 MiB with 2 reads; 2 MiB with 4 reads, thorough) and every schedule of up to 3 reads and 3 opens, two calls in a row, and every length up to 2^44 for the first two reads; every outcome of a call is symbolic: failure with any errno, nothing, or any number of bytes up to the requested one', outside='schedules with more calls than that (the path ends when the bound is reached); the kernel and the quality of its randomness; concurrent calls from several threads', cuts=['open, openat, close, read, sleep, usleep, errno: a model of the kernel that may fail or return short at every call'])
    w = ['every byte filled exactly once', 'reads into the caller\'s buffer', 'exactly the requested bytes are drawn']
    for rd, bits in ((2, 24), (3, 22)) + (((4, 21),) if t else ()):
        c.job('wide-%d' % rd, 'C18.c', R, params=dict(wide=1, reads=rd, opens=3, again=0, bits=bits), reach=['open fails', 'read fails', 'read returns nothing', 'short read', 'returned', 'end'], labels=w, cost=9 + rd, time=2000)
    c.job('wide-two-calls', 'C18.c', R, params=dict(wide=1, reads=2, opens=2, bits=23), reach=['several chunks', 'end'] if 0 else ['end'], labels=w, cost=9)
    c.job('huge', 'C18.c', R, params=dict(wide=1, reads=2, opens=2, again=0, bits=44, min=1 << 20), reach=['short read'], labels=w[1:2], cost=9)
    for n in (0, 1, 2, 3, 5) + ((8,) if t else ()):
        c.job('bytes-%d' % n, 'C18.c', R, params=dict(len=n, reads=5 if n < 8 else 4, opens=2, again=int(n < 5)), reach=['returned', 'end'] + (['short read'] if n > 1 else []), labels=['the buffer holds the bytes read, in order, each once', 'nothing outside is written'] if n else [], cost=n)
    return c
