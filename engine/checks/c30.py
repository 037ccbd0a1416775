"""C30: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C30', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every file reader and writer, printing function, log and process setup function, equal to the '
                     'reviewed summary in spec/effects/C30.json',
                     {'functions': 33, 'effects': 262}, KNOWN)
    R.assume += ['the C library formats and parses numbers as the standard says']
    return R
