"""dev: constant-shape mode must never refute on a good tree"""
import sys
sys.argv = sys.argv[:1] + ['maps' if len(sys.argv) < 2 else sys.argv[1]] + sys.argv[2:]
src = open('/verif/tools/ra.py').read().replace("v = run_ob(P_, OB[i], int(os.environ.get('TMO','60')))", "v = run_inst(P_, OB[i], 15)").replace("s != 'PROVED'", "not why.endswith('no instance')")
exec(src)
