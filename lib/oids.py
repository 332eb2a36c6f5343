"""parameter sets of RFC 8391 / SP 800-208: (oid, full height, layers, n)"""
X, M = [], []
o = 1
for n, cnt in ((32, 3), (64, 3), (32, 3), (64, 3), (24, 3), (32, 3), (24, 3)):
    for h in (10, 16, 20): X.append((o, h, 1, n)); o += 1
o = 1
for n in (32, 64, 32, 64, 24, 32, 24):
    for h, d in ((20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12)): M.append((o, h, d, n)); o += 1
