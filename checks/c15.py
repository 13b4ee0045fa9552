"""C15: adjoint gradient is exact, linear Hz-polarized objectives."""
from sa.world import *
from checks.grad import linear

FLOOR = 8


def run(ck):
    pol = 'Hz'
    for c in ('Hz', 'Ex', 'Ey'):
        for npml in ((0, 0), (3, 2)):
            for filt in (True, False):
                ck.case('%s, layers %s%s' % (
                    c, npml, ', filter' if filt else ''), linear, pol,
                    [(c, False)], npml, filt)
    ck.case('three components', linear, pol, [('Hz', False), ('Ex', False),
                                             ('Ey', False)], (3, 2), True)
    ck.case('the same field twice', linear, pol, [('Hz', False),
                                                  ('Hz', False)])


TECHNIQUE = ('required gradient obtained by differentiating the forward '
             'problem read off the source (including the direct dependence '
             'of Ex, Ey on the permittivity), compared with the adjoint '
             'gradient the source computes')
NOTE = ('All objectives, permittivities, sources, layers, filters, '
        'projections and design regions on grids of any size.')
