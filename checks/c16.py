"""C16: adjoint gradient is exact, Kerr objectives."""
from sa.world import *
from checks.grad import kerr

FLOOR = 8


def run(ck):
    for c in ('Ez', 'Hx', 'Hy'):
        for npml, filt, scale in (((0, 0), True, False), ((3, 2), True, True),
                                  ((3, 2), False, False),
                                  ((0, 0), False, True)):
            ck.case('%s, layers %s%s%s' % (
                c, npml, ', filter' if filt else '',
                ', scaled' if scale else ''), kerr, [(c, True)], npml, filt,
                scale)
    ck.case('linear and nonlinear', kerr, [('Ez', False), ('Ez', True),
                                           ('Hx', True)], (3, 2), True,
            True)
    ck.case('order reversed', kerr, [('Hy', True), ('Hx', False)])
    ck.case('two media', kerr, [('Ez', True)], (0, 0), True, False, 2)


TECHNIQUE = ('required gradient obtained by differentiating the nonlinear '
             'residual (Wirtinger) and the forward components read off the '
             'source, compared with the adjoint gradient')
NOTE = ('All objectives, permittivities, nonlinear fields, layers, filters, '
        'projections, regions; the nonlinear field is any root of the '
        'residual.')
