"""C25: comparison of the canonical effect summaries of one family of functions with the reviewed ones (engine/frozen.py)."""
import frozen

KNOWN = [('bml_convert_dense', 'reads the elements of A in the precision of the result, so converting to another precision is wrong'),
         ('bml_convert_ellpack', 'reads the elements of A in the precision of the result, so converting to another precision is wrong'),
         ('bml_convert_ellblock', 'reads the elements of A in the precision of the result, so converting to another precision is wrong'),
         ('bml_convert_csr', 'reads the elements of A in the precision of the result, so converting to another precision is wrong')]


def run(progs):
    R = frozen.check('C25', progs,
                     'Canonical effect summary (results, stores, calls, messages; conditions and ranges) of every copy, conversion, import, export and getter, equal to the '
                     'reviewed summary in spec/effects/C25.json',
                     {'functions': 105, 'effects': 525}, KNOWN)
    R.assume += []
    return R
