"""C31: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C31', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every send, receive, broadcast, gather and rank query, equal to the '
                     'reviewed summary in spec/effects/C31.json',
                     {'functions': 82, 'effects': 375}, KNOWN)
    R.assume += ['MPI delivers messages as the standard says']
    return R
