"""Debug: analyse bodies by name and print outcomes."""
import sys, time, traceback
from . import facts as FX
from .engine import *
OPT_TR = {'Router', 'MessagesInbox', 'HttpServer', 'Traversal', 'PortForwarder', 'AsJson'}


class Base(Interp):
    def __init__(self, F, **k):
        tr = [t for t in F.traits if t.split('::')[-1] in OPT_TR]
        super().__init__(F, opaque_traits=tr, **k)


def show_outs(outs, full=True):
    for o in outs:
        print('== RET', o.ret)
        for f in o.facts.show():
            print('     |', f)
        for e in o.events:
            print('     >', e if e.kind != 'loop' else 'LOOP %s' % e.data.where[0])


if __name__ == '__main__':
    F = FX.get('main')
    quiet = '-q' in sys.argv
    pats = [a for a in sys.argv[1:] if a not in ('-q', '-d')]
    disp = '-d' in sys.argv
    unk = {}
    for b in F.raw['bodies']:
        if b['kind'] == 'Ext' or not b['blocks']:
            continue
        if not any(p in b['name'] for p in pats):
            continue
        if '{closure' in b['id'].rsplit('::', 1)[-1]:
            continue
        I = Base(F)
        I.expand_display = disp
        t = time.time()
        try:
            outs = I.entry(b)
        except Exception as e:
            print('!!', b['name'], type(e).__name__, str(e)[:300])
            if not quiet:
                traceback.print_exc()
            continue
        print('##', b['name'], len(outs), 'outcomes', I.states, 'states %.2fs' % (time.time() - t), 'panics', len(I.panics), 'loops', len(I.loops))
        for k, v in I.unknown.items():
            unk[k] = unk.get(k, 0) + v
        if not quiet:
            from .pretty import report
            print(report(outs, I.loops.values(), I.panics))
    print('UNKNOWN', *sorted(unk.items(), key=lambda x: -x[1]), sep='\n  ')
