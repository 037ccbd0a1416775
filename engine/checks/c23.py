"""C23: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = [('bml_trace_mult_dense', 'returns the sum of A(i,j) * B(i,j), which is tr(A B) only for symmetric B'),
         ('bml_trace_mult_ellpack', 'returns the sum of A(i,j) * B(i,j), which is tr(A B) only for symmetric B'),
         ('bml_sum_squares_submatrix_dense', 'sums all columns of the core rows, not the core columns only')]


def run(progs):
    R = frozen.check('C23', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every trace, norm, sum, sparsity, bandwidth, off-diagonal sum and Gershgorin bound, equal to the '
                     'reviewed summary in spec/effects/C23.json',
                     {'functions': 165, 'effects': 525}, KNOWN)
    R.assume += []
    return R
