from vlib import Check
def check(tier):
    c = Check('C19', bounds='every 32-bit OID, every key, message and signature content, every message length value and every return value of the algorithm (all symbolic), for all six API functions', outside='key and message buffers are represented by their first 40 bytes: the wrappers only pass pointers on', cuts=['xmss_core_* / xmssmt_core_* (C04-C17): stand-ins that record their arguments, write anything into their outputs and return anything', 'the parameter set an OID names (C01)'])
    for i, nm in enumerate(('xmss_keypair', 'xmss_sign', 'xmss_sign_open', 'xmssmt_keypair', 'xmssmt_sign', 'xmssmt_sign_open'), 1):
        c.job(nm, 'C19.c', ['xmss.c', 'params.c'], params=dict(which=i), reach=['known OID', 'unknown OID'], labels=['parameters of the key\'s OID', 'untouched'])
    return c
