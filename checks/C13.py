from vlib import Check
import core, importlib.util, os
from corejobs import jobs
def check(tier):
    c = Check('C13', bounds='every index from the last one to the largest the field can hold (symbolic), then two more calls; every seed and message byte symbolic; shapes as C12; both implementations', outside='longer sequences of calls on an exhausted key (its state no longer changes)', cuts=core.CUTS)
    jobs(c, 'harness_c13', lambda h, d: ['refused', 'end'] + (['last'] if h % 8 or d == 1 else []), ['exhausted key refuses', 'secret erased'], tier, 'last')
    return c
