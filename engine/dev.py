import os; _V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys, time, glob, importlib.util, os
sys.path.insert(0, _V+'/engine'); sys.path.insert(0, _V+'/contracts')
sys.setrecursionlimit(20000)
import unit as U
def load():
    for p in sorted(glob.glob(_V+'/contracts/c_*.py')):
        n = os.path.basename(p)[:-3]
        __import__(n)
if __name__ == '__main__':
    load()
    prog = U.Prog(os.environ.get('MIRJSON', _V+'/build/mir.json'))
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    full = '-v' in sys.argv
    for n, u in U.UNITS.items():
        if pat in n or pat in u.props: U.show(U.run_unit(prog, u, prop=os.environ.get('PROP')), full)
