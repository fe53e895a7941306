import sys, importlib, time
from .prog import Prog
from .spec import Spec
from .contracts import verify
from .specs import load

def main():
    p = Prog(__import__('os').environ.get('VF_MIR', '/verif/.build/mir.json'))
    sp = Spec(p)
    load(sp)
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    sp.debug = '-d' in sys.argv
    for k in list(sp.contracts):
        if any(a in k for a in args):
          for var in sp.contract(k).variants()[:int(__import__('os').environ.get('VARS','9'))]:
            r = verify(p, sp, k, variant=var)
            if var is not None: r.reason = '[%s] %s' % (var, r.reason or '')
            print('%-10s %-60s %4d obl  %.1fs %s' % (r.status, k, len(r.obls), r.time, r.reason or ''))
            if '-v' in sys.argv:
                for o in r.obls: print('      ', o.status, o.name, o.line, o.backend, '%.2f' % o.time)
            else:
                for o in r.failed(): print('      ', o.status, o.name, o.line)
main()
