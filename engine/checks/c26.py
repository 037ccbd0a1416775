"""C26: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C26', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every product of sparse matrices, equal to the '
                     'reviewed summary in spec/effects/C26.json',
                     {'functions': 45, 'effects': 450}, KNOWN)
    R.assume += []
    return R
