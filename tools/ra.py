"""dev: run all obligations of a module: ra.py mod [substr]"""
import sys, json, time, importlib, traceback, os
sys.path.insert(0, '/verif/engine')
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from spec import *
from interp import Prog
mods = sys.argv[1].split(',')
sub = sys.argv[2] if len(sys.argv) > 2 else ''
P_ = Prog(json.load(open(os.environ.get('VD_OUT','/verif/.build/mir.json'))))
OB = [o for m in mods for o in importlib.import_module('obl_' + m).obls() if sub in o.root + ' ' + o.name]
def one(i):
    t = time.time()
    try:
        v = run_ob(P_, OB[i], int(os.environ.get('TMO','60')))
        if v.status == 'UNDECIDED' and os.environ.get('INST'): 
            w = v.why; v = run_inst(P_, OB[i], 10); v.why += ' | ' + w
        return i, v.status, v.why, v.wit, v.loc, time.time() - t
    except Exception as e:
        return i, 'CRASH', traceback.format_exc(limit=-4), None, None, time.time() - t
if __name__ == '__main__':
    t0 = time.time(); cnt = {}; shown = {}
    with Pool(8) as p:
        for i, s, why, w, loc, dt in p.imap_unordered(one, range(len(OB))):
            cnt[s] = cnt.get(s, 0) + 1
            k = (s, OB[i].root, why[-60:])
            shown[k] = shown.get(k, 0) + 1
            if (s != 'PROVED' and shown[k] <= 1 and sum(1 for x in shown if x[0] != "PROVED") < 400) or dt > 20:
                print('%-9s %5.1fs %s [%s] %s %s %s' % (s, dt, OB[i].root, OB[i].name, why[:int(os.environ.get('W','400'))], w or '', loc or ''))
    print(cnt, '%.1fs' % (time.time() - t0))
