"""C14: adjoint gradient is exact, linear Ez-polarized objectives."""
from sa.world import *
from checks.grad import linear

FLOOR = 8


def run(ck):
    pol = 'Ez'
    for c in ('Ez', 'Hx', 'Hy'):
        for npml in ((0, 0), (3, 2)):
            for filt in (True, False):
                ck.case('%s, layers %s%s' % (
                    c, npml, ', filter' if filt else ''), linear, pol,
                    [(c, False)], npml, filt)
    ck.case('three components', linear, pol, [('Ez', False), ('Hx', False),
                                             ('Hy', False)], (3, 2), True)
    ck.case('the same field twice', linear, pol, [('Ez', False),
                                                  ('Ez', False)])


TECHNIQUE = ('required gradient obtained by differentiating the forward '
             'problem read off the source, compared with the adjoint '
             'gradient the source computes')
NOTE = ('All objectives, permittivities, sources, layers, filters, '
        'projections and design regions on grids of any size.')
