"""C20: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C20', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every distributed-format function and reduction primitive, equal to the '
                     'reviewed summary in spec/effects/C20.json',
                     {'functions': 45, 'effects': 225}, KNOWN)
    R.assume += ['every process calls the operation on the same distributed matrix (MPI collective semantics)']
    return R
