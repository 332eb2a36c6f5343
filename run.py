#!/usr/bin/env python3
"""run.py <property> [-v] [--only REGEX] [--tier quick|thorough] [--replay JOB MODEL]"""
import sys, os, importlib.util, time, tempfile, json, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'lib')); sys.dont_write_bytecode = True
import vlib
def main():
    a = sys.argv[1:]; prop = a.pop(0); verbose = False; only = None; tier = os.environ.get('VERIF_TIER', 'quick'); replay = None
    while a:
        x = a.pop(0)
        if x == '-v': verbose = True
        elif x == '--only': only = a.pop(0)
        elif x == '--tier': tier = a.pop(0)
        elif x == '--replay': replay = (a.pop(0), a.pop(0))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if not os.path.exists(vlib.XSE): os.system('make -s -j8 -C %s/engine >&2' % HERE)
    spec = importlib.util.spec_from_file_location(prop, os.path.join(HERE, 'checks', prop + '.py')); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    chk = mod.check(tier)
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf): chk.known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop]
    if replay:
        j = [j for j in chk.jobs if j.name == replay[0]][0]; d = tempfile.mkdtemp(); 
        try: ok, log = vlib.run_native(vlib.Builder(d), j, os.path.abspath(replay[1]), d)
        finally: shutil.rmtree(d)
        print(log); print('REPRODUCED' if ok else 'NOT REPRODUCED'); sys.exit(1 if ok else 0)
    t = time.time(); rc = vlib.run_check(chk, tier, seed, verbose, only)
    print('%s %s: %s in %.1fs (%d jobs)' % (prop, tier, {0: 'held on everything explored', 1: 'VIOLATED', 2: 'ERROR'}[rc], time.time() - t, len(chk.jobs))); sys.exit(rc)
main()
