from vlib import Check
import core
from corejobs import jobs
def check(tier):
    c = Check('C23', bounds='every use of the one-time key, the randomizer PRF and the message hash in one signing call from every value of the index field (symbolic); shapes as C12; both implementations', outside='reordering of stores by an optimising compiler or CPU: program order in the unoptimised IR is what is checked', cuts=core.CUTS)
    jobs(c, 'harness_c23', lambda h, d: ['signed'], ['index already advanced'], tier, 'order')
    return c
