"""C24: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C24', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every addition, scaling, thresholding, normalisation and element-wise product, equal to the '
                     'reviewed summary in spec/effects/C24.json',
                     {'functions': 120, 'effects': 675}, KNOWN)
    R.assume += []
    return R
