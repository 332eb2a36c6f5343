from vlib import Check
import core, lives
def check(tier):
    c = Check('C24', bounds='leaves computed by every signing call of the whole life of a key, counted at the leaf function on the real code, at most (tree height - k)/2 + 1 + d; the lives are those of C14', outside='lives longer than listed; hash calls other than leaf computations', cuts=core.CUTS)
    lives.jobs(c, tier, 24, ['leaves per signature'])
    return c
