from vlib import Check
import core, lives
def check(tier):
    c = Check('C14', bounds='key generation and every signature of the whole life of a key, for all secret seeds, PRF keys, public seeds and messages of one byte (all bits symbolic), compared byte for byte with the RFC 8391 signature; trees of height 3..8 and 10 with one layer (h=10 is the registered XMSS height, n in {24,32,64}), 2 layers of height 3..7, 3 layers of height 3, 4 and 5, 4 and 5 layers of height 3, bds_k=2,4 for even tree heights, the first 34000 signatures of 4 layers of height 4 and of the registered shape 20/4 (tree height 5); index after the last is refused; -tag jobs: heights 16 (first 1500 signatures), 20 (first 64) and 20/2 (first 3000) with nodes abstracted to tags (thorough: the whole life of 16/1, 100000 signatures of 20/2 and 20/4)', outside='longer lives than these; custom parameters outside what the BDS schedule supports: bds_k > 0 with odd tree height minus k, tree height below 3', cuts=core.CUTS)
    lives.jobs(c, tier, 14, ['signature equals the reference signature'])
    return c
