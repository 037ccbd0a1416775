"""C29: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C29', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every element, row, diagonal and block setter and CSR row or table primitive, equal to the '
                     'reviewed summary in spec/effects/C29.json',
                     {'functions': 90, 'effects': 375}, KNOWN)
    R.assume += []
    return R
