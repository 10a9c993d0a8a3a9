"""Property -> analysis."""
from . import ccchecks, structchecks, intchecks, purity, ftchecks, cichecks, complexchecks

CHECKS = {
    'C01': (ccchecks.c01, {'min_obligations': 4}),
    'C02': (ccchecks.c02, {'min_obligations': 4}),
    'C03': (ccchecks.c03, {'min_obligations': 1}),
    'C04': (ccchecks.c04, {'min_obligations': 1}),
    'C05': (ccchecks.c05, {'min_obligations': 6}),
    'C06': (ccchecks.c06, {'min_obligations': 1}),
    'C07': (ccchecks.c07, {'min_obligations': 1}),
    'C08': (ccchecks.c08, {'min_obligations': 16}),
    'C09': (ccchecks.c09, {'min_obligations': 18}),
    'C10': (ccchecks.c10, {'min_obligations': 9}),
    'C11': (ccchecks.c11, {'min_obligations': 9}),
    'C12': (ccchecks.c12, {'min_obligations': 9}),
    'C13': (ccchecks.c13, {'min_obligations': 40}),
    'C14': (purity.c14, {'min_obligations': 150}),
    'C15': (structchecks.c15, {'min_obligations': 7}),
    'C16': (structchecks.c16, {'min_obligations': 8}),
    'C17': (structchecks.c17, {'min_obligations': 20}),
    'C18': (structchecks.c18, {'min_obligations': 5}),
    'C19': (structchecks.c19, {'min_obligations': 17}),
    'C20': (intchecks.c20, {'min_obligations': 10}),
    'C21': (intchecks.c21, {'min_obligations': 15}),
    'C22': (intchecks.c22, {'min_obligations': 25}),
    'C23': (intchecks.c23, {'min_obligations': 40}),
    'C24': (cichecks.c24, {'min_obligations': 10}),
    'C25': (cichecks.c25, {'min_obligations': 8}),
    'C26': (cichecks.c26, {'min_obligations': 20}),
    'C27': (cichecks.c27, {'min_obligations': 30}),
    'C28': (cichecks.c28, {'min_obligations': 9}),
    'C29': (cichecks.c29, {'min_obligations': 20}),
    'C30': (ftchecks.c30, {'min_obligations': 2}),
    'C31': (ftchecks.c31, {'min_obligations': 2}),
    'C32': (ftchecks.c32, {'min_obligations': 6}),
    'C33': (cichecks.c33, {'min_obligations': 12}),
    'C34': (complexchecks.c34, {'min_obligations': 40}),
    'C37': (ccchecks.c37, {'min_obligations': 35}),
}


T_ALG = 'abstract interpretation to a tensor-polynomial normal form, compared with a derived specification'
N_ALG = ('Every path of each listed function is interpreted abstractly: arrays become polynomials in named tensors over '
         'index spaces of unknown size. Equality of normal forms holds for all sizes and all tensor values; '
         'floating-point rounding is outside the argument.')
T_PUR = 'effect and alias analysis over array views'
N_PUR = ('Every write to an array reachable from an argument, and every alias between results and arguments, is tracked '
         'through views on every interpreted path.')
T_STR = 'abstract interpretation to comprehension and index-space normal forms'
N_STR = ('Loop nests become set comprehensions over index spaces of unknown size and arrays become block tensors; the '
         'normal forms are compared with the definition, for all sizes.')
T_CI = 'abstract interpretation over determinant strings: order facts, parities and occupation bits'
N_CI = ('Branch conditions are split over the finite set of orderings of the orbital positions that occur; signs are '
        'parities of symbolic electron counts. The result covers all orbital counts and all integrals.')
T_FT = 'piecewise interval and rational-function analysis'
N_FT = ('Branch thresholds split the real line; on each piece the expression is compared with the exact function as a '
        'rational function of exponentials, and ranges are bounded with interval arithmetic.')
TEXTS = {}
for _c in range(1, 14):
    TEXTS['C%02d' % _c] = (T_ALG, N_ALG)
TEXTS['C37'] = (T_ALG, N_ALG)
TEXTS['C14'] = (T_PUR, N_PUR)
for _c in (15, 16, 17, 18, 19, 20, 21, 22, 23, 32, 34):
    TEXTS['C%02d' % _c] = (T_STR, N_STR)
for _c in (24, 25, 26, 27, 28, 29, 33):
    TEXTS['C%02d' % _c] = (T_CI, N_CI)
for _c in (30, 31):
    TEXTS['C%02d' % _c] = (T_FT, N_FT)

NOT_APPLICABLE = {
    'C35': 'A bound in units in the last place depends on the rounding of every library call and operation; no '
           'argument over the source alone bounds it without a formal model of the platform\'s exp and log.',
    'C36': 'The energy is computed inside the electronic-structure package; the source of this repository fixes only '
           'which integrals are requested (properties C20-C23), not the numbers that package returns.',
}


def get(prop):
    fn, meta = CHECKS[prop]
    meta = dict(meta)
    tech, note = TEXTS[prop]
    meta.setdefault('level', 'other')
    meta.setdefault('explanation', note)
    meta.setdefault('technique', tech)
    meta.setdefault('note', note)
    return fn, meta
