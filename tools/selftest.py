"""Runs the constructs of snippets.py through the analyser and through Python and compares (a test of the analyser)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from enoai.world import World
from enoai.values import *
from enoai.state import *
import snippets

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'snippets.py')


def freeze(x):
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return tuple(freeze(y) for y in x)
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((freeze(k), freeze(v)) for k, v in x.items())
    return x


def thaw(st, v):
    if isinstance(v, C):
        return freeze(v.v)
    if isinstance(v, Tup):
        return tuple(thaw(st, x) for x in v.items)
    if isinstance(v, R):
        o = st.get(v.a)
        if isinstance(o, ListO):
            return tuple(thaw(st, x) for x in o.items)
        if isinstance(o, DictO):
            return ('dict',) + tuple((thaw(st, k), thaw(st, x)) for k, x in o.keys.items())
    return repr(v)


def main():
    bad = 0
    for name in [n for n in dir(snippets) if n.startswith('t_')]:
        if len(sys.argv) > 1 and name not in sys.argv[1:]:
            continue
        want = freeze(getattr(snippets, name)())
        try:
            w = World(specs=[('spec_snip', PATH)])
            st = w.state()
            st.taint = False
            w.e.imprecise.clear()
            outs = w.call(w.mod("spec_snip", name), [], st)
        except Exception as e:
            print(name, 'ERROR', type(e).__name__, str(e)[:200])
            bad += 1
            continue
        if len(outs) == 1 and outs[0].kind == 'ret' and not outs[0].st.taint:
            got = thaw(outs[0].st, outs[0].value)
            if got == want:
                continue
            print(name, 'DIFFERS')
            if isinstance(got, tuple) and isinstance(want, tuple) and len(got) == len(want):
                for i, (g, x) in enumerate(zip(got, want)):
                    if g != x:
                        print('    ', i, g, 'instead of', x)
            else:
                print('    ', got, 'instead of', want)
        else:
            print(name, 'UNKNOWN', len(outs), [(o.kind, w.describe(o.st, o.value)[:150], o.st.taint) for o in outs[:3]])
        for k in list(w.e.imprecise if hasattr(w.e, 'unknowns') else [])[:3]:
            print('      vague:', k)
        bad += 1
    print(bad, 'constructs not decided exactly')


if __name__ == '__main__':
    main()
