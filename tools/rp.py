#!/usr/bin/env python3
# run one replay harness alone: tools/rp.py C07 parser c07.go.txt,parutil.go.txt [budget] [seed] [pkgname]
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
src = open(V + '/check.py').read().rsplit('\nmain()\n', 1)[0]
__file__ = V + '/check.py'
exec(src)
pid, pkg, files = args[0], args[1], args[2].split(',')
PROPS[pid] = dict(replay=(pkg, files))
if len(args) > 5: PROPS[pid]['pkgname'] = args[5]
st, fail, err = replay(pid, int(args[3]) if len(args) > 3 else 5, int(args[4]) if len(args) > 4 else 1, '/tmp')
if st: print({k: v for k, v in st.items() if k != 'samples'})
if fail: print('\n'.join(fail['input'])); print(fail['mismatch'])
if err: print(err)
