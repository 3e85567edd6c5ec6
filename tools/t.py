import sys, json, time
sys.path.insert(0, '/verif/engine')
from spec import *
from interp import Prog
import traceback
P_ = Prog(json.load(open('/verif/.build/mir.json')))
def go(ob):
    t=time.time()
    try:
        v = run_ob(P_, ob)
    except Exception as e:
        traceback.print_exc()
        print(ob.name, 'CRASH'); return
    print('%-9s %5.2fs %s  %s %s %s' % (v.status, time.time()-t, ob.name, v.why, v.wit or '', v.loc or ''))
