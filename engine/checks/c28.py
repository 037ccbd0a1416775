"""C28: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C28', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every constructor, clearing function and domain function, equal to the '
                     'reviewed summary in spec/effects/C28.json',
                     {'functions': 90, 'effects': 600}, KNOWN)
    R.assume += ['the random number generator is the one of the C library']
    return R
