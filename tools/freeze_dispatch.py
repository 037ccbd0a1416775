"""Rewrite spec/dispatch.json from the current source (review the diff before committing)."""
import sys, os, json
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine')
sys.path[:0] = [D, D + '/checks']
sys.dont_write_bytecode = True
import core, c01
progs = core.load()
out = {c: {n: {k: c01.enc(s) for k, s in row.items()} for n, row in c01.table(progs[c]).items()} for c in 'AB'}
json.dump(out, open(c01.SPEC, 'w'), indent=0, sort_keys=True)
