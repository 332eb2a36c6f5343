"""parameter-set shapes of RFC 8391 / SP 800-208: (full height, layers)"""
XMSS = [(10, 1), (16, 1), (20, 1)]
XMSSMT = [(20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12)]
