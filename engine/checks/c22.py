"""C22: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = []


def run(progs):
    R = frozen.check('C22', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every matrix product, diagonalisation and inverse done by BLAS, LAPACK or ScaLAPACK, equal to the '
                     'reviewed summary in spec/effects/C22.json',
                     {'functions': 45, 'effects': 187}, KNOWN)
    R.assume += ['BLAS and LAPACK routines do what their reference documentation says']
    return R
