"""C27: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C27', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every transpose, symmetrisation, sub-matrix, grouping, reordering and adjacency function, equal to the '
                     'reviewed summary in spec/effects/C27.json',
                     {'functions': 90, 'effects': 750}, KNOWN)
    R.assume += []
    return R
