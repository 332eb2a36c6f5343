NA = {'C26': 'A computational security claim about all efficient adversaries: it is not a statement about values the code computes, and no SMT query over the code decides it. The functional facts its published reduction needs are the other properties (C02, C04-C07, C12, C17).'}
NOTE['C04'] = 'F and PRF_keygen are cut (decided by C02).'
NOTE['C06'] = 'WOTS+ key generation and H are cut (C04, C02).'
NOTE['C07'] = 'wots_pk_from_sig, H and H_msg are cut (C04, C02).'
NOTE['C08'] = 'wots_pk_from_sig and H are cut (C04, C02).'
NOTE['C09'] = 'wots_pk_from_sig, H and H_msg are cut (C04, C02).'
