"""C14: observing a dataset within constraints."""
import numpy

from sx.context import case
from props import dataset
from goats.core import observing
from goats.core import physical
from goats.core import variable

O = ('goats.eprem.Context', 'goats.core.observing.Context',
     'goats.core.observing.Observable', 'goats.core.observing.Observation',
     'goats.core.observer.Interface')
I = O + ('goats.eprem.Context.interpolate', 'goats.core.interpolation.apply')

DAY = dataset.DAY
AU = dataset.AU

PICKS = {
    # user constraint -> indices of three
    'none': (None, [0, 1, 2]), 'first': (0, [0]), 'last': (2, [2]),
    'list': ([2, 0], [2, 0]), 'tuple': ((1,), [1]),
    'slice': (slice(1, None), [1, 2]), 'range': (range(0, 3, 2), [0, 2]),
}


def constrain(**given):
    return {k: v for k, v in given.items() if v is not None}


@case('C14', 'a quantity of any values at three times and shells, observed at one'
      ' or more indices of each axis, in three units', O, shard=('time', 7),
      warm=dataset.warm)
def by_index(cx):
    time = cx.choice('time', list(PICKS))
    shell = cx.choice('shell', list(PICKS))
    br = cx.array('b', (3, 3))
    o = dataset.Observer(dataset.grid(cx, 3, 3, Br=br))
    t, ti = PICKS[time]
    s, si = PICKS[shell]
    unit, k = cx.choice('unit', [(None, 1e-9), ('nT', 1), ('G', 1e-5)])
    q = o['Br'][unit] if unit else o['Br']
    r = q.observe(**constrain(time=t, shell=s))
    cx.check(r.unit == (unit or 'T'), 'unit')
    cx.check(tuple(r.dimensions) == ('time', 'shell'), 'dimensions')
    want = br[ti][:, si]
    got = numpy.array(r.data)
    cx.check(got.shape == want.shape, 'shape')
    cx.check_all_close(got / k, want, 'selected values')
    times = [0.0, 0.5 * DAY, 1.0 * DAY]
    cx.check_all_close(numpy.array(r['time']), [times[i] for i in ti], 'times')
    cx.check(list(r['shell'].data) == si, 'shells')


def ascending(cx, xs, gap=1 / 64):
    for a, b in zip(xs[:-1], xs[1:]):
        cx.assume(b - a >= gap)


def within(cx, xs, t):
    """t is inside of the range, and equal to or clearly apart from each x."""
    cx.assume(cx.both(t >= xs[0], t <= xs[-1]))
    for x in xs:
        cx.assume(cx.either(t == x, abs(t - x) >= (abs(x) + 1) / 1024))


def weights(cx, xs, t):
    """The weight of each element in the linear interpolant at t."""
    n = len(xs)
    for i, x in enumerate(xs):
        if cx.decide(t == x):
            return [1 if j == i else 0 for j in range(n)]
    for i in range(n - 1):
        if cx.decide(cx.both(xs[i] < t, t < xs[i + 1])):
            w = (t - xs[i]) / (xs[i + 1] - xs[i])
            out = [0] * n
            out[i], out[i + 1] = 1 - w, w
            return out
    cx.check(False, 'unreachable')


def mix(ws, ys):
    return sum(w * y for w, y in zip(ws, ys))


@case('C14', 'a quantity of any values at two to four (thorough: five) ascending'
      ' times and two shells, observed at one or two times within their range',
      I, shard=('n', 3), warm=dataset.warm)
def between_times(cx):
    cx.float_arrays()
    n = cx.choice('n', cx.bound([2, 3, 4], [2, 3, 4, 5]))
    xs = cx.reals('x', n, lo=0, hi=50)
    ascending(cx, xs)
    br = cx.array('b', (n, 2), lo=-100, hi=100)
    o = dataset.Observer(dataset.grid(cx, n, 2, Br=br, time=cx.to_array(xs)))
    m = cx.choice('m', [1, 2] if n < 4 else [1])
    ts = cx.reals('t', m, lo=0, hi=50)
    for t in ts:
        within(cx, xs, t)
    unit, k = cx.choice('unit', [('day', 1), ('s', DAY)])
    r = o['Br'].observe(time=(*[t * k for t in ts], unit))
    cx.check(r.unit == 'T', 'unit')
    cx.check(tuple(r.dimensions) == ('time', 'shell'), 'dimensions')
    got = numpy.array(r.data)
    cx.check(got.shape == (m, 2), 'shape')
    for i, t in enumerate(ts):
        cx.check_close(numpy.array(r['time'])[i], t * DAY, 'time of the observation')
        ws = weights(cx, xs, t)
        for s in range(2):
            cx.check_close(got[i, s] * 1e9, mix(ws, br[:, s]), 'value',
                           scale=200)


def radii(cx, T, S, name='r'):
    a = cx.array(name, (T, S), lo=0.125, hi=50)
    for row in a:
        ascending(cx, list(row))
    return a


@case('C14', 'a quantity of any values at up to two (thorough: three) times and'
      ' two or three shells at any ascending radii, observed at a radius within'
      ' their range at all times', I, shard=('shape', 4),
      warm=dataset.warm)
def between_radii(cx):
    cx.float_arrays()
    T, S = cx.choice('shape', cx.bound(
        [(1, 2), (2, 2), (1, 3), (2, 3)],
        [(1, 2), (2, 2), (1, 3), (2, 3), (3, 2), (1, 4)]))
    rs = radii(cx, T, S)
    br = cx.array('b', (T, S), lo=-100, hi=100)
    o = dataset.Observer(dataset.grid(cx, T, S, Br=br, R=rs))
    t = cx.real('t', lo=0.125, hi=50)
    for row in rs:
        within(cx, list(row), t)
    name, given = cx.choice('name', [
        ('radius', (t, 'au')), ('r', (t, 'au')), ('R', [t, 'au']),
        ('radius', physical.Scalar(t, unit='au')), ('radius', (t * AU, 'm'))])
    r = o['Br'].observe(**{name: given})
    cx.check(r.unit == 'T', 'unit')
    cx.check(tuple(r.dimensions) == ('time', 'shell'), 'dimensions')
    got = numpy.array(r.data)
    cx.check(got.shape == (T, 1), 'shape')
    for j in range(T):
        ws = weights(cx, list(rs[j]), t)
        cx.check_close(got[j, 0] * 1e9, mix(ws, br[j]), 'value', scale=200)


@case('C14', 'a quantity of any values at two times and two or three shells at'
      ' any ascending radii, observed at one time and one radius within their'
      ' range', I, shard=('S', 2), warm=dataset.warm)
def between_times_and_radii(cx):
    cx.float_arrays()
    S = cx.choice('S', [2, 3])
    xs = cx.reals('x', 2, lo=0, hi=50)
    ascending(cx, xs)
    rs = radii(cx, 2, S)
    br = cx.array('b', (2, S), lo=-100, hi=100)
    o = dataset.Observer(dataset.grid(
        cx, 2, S, Br=br, R=rs, time=cx.to_array(xs)))
    t = cx.real('t', lo=0, hi=50)
    d = cx.real('d', lo=0.125, hi=50)
    within(cx, xs, t)
    for row in rs:
        within(cx, list(row), d)
    r = o['Br'].observe(time=(t, 'day'), radius=(d, 'au'))
    got = numpy.array(r.data)
    cx.check(got.shape == (1, 1), 'shape')
    rows = [mix(weights(cx, list(rs[j]), d), br[j]) for j in range(2)]
    cx.check_close(got[0, 0] * 1e9, mix(weights(cx, xs, t), rows), 'value',
                   scale=200)


def flux_grid(cx, T, S, flux, **more):
    return dataset.Observer(dataset.grid(cx, T, S, flux=flux, **more))


@case('C14', 'a four-dimensional quantity of any values for two species, observed'
      ' for one or both of them, named by symbol or index', O,
      warm=dataset.warm)
def by_species(cx):
    f = cx.array('f', (1, 2, 2, 3), lo=0, hi=100)
    o = flux_grid(cx, 1, 2, f)
    given, idx = cx.choice('given', [
        ('H+', [0]), ('He++', [1]), (1, [1]), (['He++', 'H+'], [1, 0]),
        ([0, 1], [0, 1]), (None, [0, 1])])
    shell = cx.choice('shell', [None, 1])
    r = o['flux'].observe(**constrain(species=given, shell=shell))
    cx.check(tuple(r.dimensions) == ('time', 'shell', 'species', 'energy'),
             'dimensions')
    got = numpy.array(r.data)
    want = f[:, [shell] if shell is not None else [0, 1]][:, :, idx]
    cx.check(got.shape == want.shape, 'shape')
    # 1 / (cm^2 s sr MeV) = 1e4 / 1.6022e-13 / (m^2 s sr J)
    cx.check_all_close(got * 1.6022e-17, want, 'selected values')
    cx.check(list(r['species'].data) == [['H+', 'He++'][i] for i in idx],
             'species of the observation')


@case('C14', 'a four-dimensional quantity of any values, observed at an energy'
      ' within the range of three ascending ones, which the species share', I,
      shard=('grid', 2), warm=dataset.warm)
def between_energies(cx):
    cx.float_arrays()
    symbolic_grid = cx.choice('grid', [False, True])
    if symbolic_grid:
        xs = cx.reals('x', 2, lo=0.125, hi=50)
        ascending(cx, xs)
    else:
        xs = [1.0, 2.0, 4.0]
    n = len(xs)
    shape = (1, 2, 2, n) if not symbolic_grid else (1, 1, 2, n)
    f = cx.array('f', shape, lo=0, hi=100)
    e = cx.to_array(xs * 2).reshape(2, n)
    o = flux_grid(cx, *shape[:2], f, egrid=e)
    t = cx.real('t', lo=0.125, hi=50)
    within(cx, xs, t)
    given = cx.choice('given', [(t, 'MeV'), (t * 1000, 'keV')])
    r = o['flux'].observe(energy=given)
    got = numpy.array(r.data) * 1.6022e-17
    cx.check(got.shape == (*shape[:3], 1), 'shape')
    ws = weights(cx, xs, t)
    for s in range(shape[1]):
        for p in range(2):
            cx.check_close(got[0, s, p, 0], mix(ws, f[0, s, p]), 'value',
                           scale=100)


@case('C14', 'two species with any two or three ascending energies each; a'
      ' four-dimensional quantity of any values, observed for one or both species'
      ' at an energy within the range of each observed species', I,
      shard=('given', 4), warm=dataset.warm)
def energies_by_species(cx):
    cx.float_arrays()
    given, idx, n = cx.choice('given', [
        ('H+', [0], 3), ('He++', [1], 3), (None, [0, 1], 2),
        (['He++', 'H+'], [1, 0], 2)])
    e = cx.array('e', (2, n), lo=0.125, hi=50)
    for row in e:
        ascending(cx, list(row))
    f = cx.array('f', (1, 1, 2, n), lo=0, hi=100)
    o = flux_grid(cx, 1, 1, f, egrid=e)
    t = cx.real('t', lo=0.125, hi=50)
    for p in idx:
        within(cx, list(e[p]), t)
    r = o['flux'].observe(energy=(t, 'MeV'), **constrain(species=given))
    got = numpy.array(r.data) * 1.6022e-17
    cx.check(got.shape == (1, 1, len(idx), 1), 'shape')
    for i, p in enumerate(idx):
        cx.check_close(got[0, 0, i, 0],
                       mix(weights(cx, list(e[p]), t), f[0, 0, p]), 'value',
                       scale=100)


@case('C14', 'two species with any three ascending energies each, observed at'
      ' one or more energy indices', I, warm=dataset.warm)
def energies_by_index(cx):
    e = cx.array('e', (2, 3), lo=0.125, hi=50)
    f = cx.array('f', (1, 1, 2, 3), lo=0, hi=100)
    o = flux_grid(cx, 1, 1, f, egrid=e)
    species, si = cx.choice('species', [
        (None, [0, 1]), ('H+', [0]), ('He++', [1]), ([1, 0], [1, 0])])
    energy, ei = cx.choice('energy', [
        (None, [0, 1, 2]), (0, [0]), (2, [2]), ([2, 0], [2, 0]),
        (slice(1, None), [1, 2]), (range(2), [0, 1])])
    r = o['flux'].observe(**constrain(species=species, energy=energy))
    got = numpy.array(r.data) * 1.6022e-17
    want = f[:, :, si][..., ei]
    cx.check(got.shape == want.shape, 'shape')
    cx.check_all_close(got, want, 'selected values')
    cx.check_all_close(numpy.array(r['energy']['MeV']), e[si[0], ei],
                       'energies of the (first) observed species')


@case('C14', 'two times, three shells at any ascending radii: observed at an'
      ' index of time and a radius within the range at that time', I,
      shard=('time', 2), warm=dataset.warm)
def radius_at_one_time(cx):
    cx.float_arrays()
    j = cx.choice('time', [0, 1])
    rs = radii(cx, 2, 3)
    br = cx.array('b', (2, 3), lo=-100, hi=100)
    o = dataset.Observer(dataset.grid(cx, 2, 3, Br=br, R=rs))
    t = cx.real('t', lo=0.125, hi=50)
    within(cx, list(rs[j]), t)
    given = cx.choice('given', [j, (0.5 * j, 'day')])
    r = o['Br'].observe(time=given, radius=(t, 'au'))
    got = numpy.array(r.data)
    cx.check(got.shape == (1, 1), 'shape')
    cx.check_close(got[0, 0] * 1e9, mix(weights(cx, list(rs[j]), t), br[j]),
                   'value', scale=200)


@case('C14', 'a five-dimensional quantity of any values, observed at a pitch-angle'
      ' cosine within the range of two or three ascending ones, or at an index,'
      ' for one species', I, shard=('n', 2), warm=dataset.warm)
def between_mus(cx):
    cx.float_arrays()
    n = cx.choice('n', [2, 3])
    xs = cx.reals('x', n, lo=-1, hi=1)
    ascending(cx, xs)
    d = cx.array('d', (1, 2, 2, 1, n), lo=0, hi=100)
    o = dataset.Observer(dataset.grid(
        cx, 1, 2, Dist=d, mu=cx.to_array(xs),
        egrid=numpy.array([[1.0], [1.0]])))
    how = cx.choice('how', ['value', 'index', 'all'])
    kw, idx = {}, list(range(n))
    if how == 'value':
        t = cx.real('t', lo=-1, hi=1)
        within(cx, xs, t)
        kw['mu'] = t
        ws = weights(cx, xs, t)
    elif how == 'index':
        kw['mu'] = 1
        idx = [1]
    species = cx.choice('species', ['H+', 1])
    p = 0 if species == 'H+' else 1
    r = o['Dist'].observe(species=species, **kw)
    got = numpy.array(r.data) * 1e-9  # s^3 / km^6 = 1e-18 s^3 / m^6
    got = got * 1e27
    if how == 'value':
        cx.check(got.shape == (1, 2, 1, 1, 1), 'shape')
        for s in range(2):
            cx.check_close(got[0, s, 0, 0, 0], mix(ws, d[0, s, p, 0]),
                           'interpolated value', scale=100)
    else:
        want = d[:, :, [p]][..., idx]
        cx.check(got.shape == want.shape, 'shape')
        cx.check_all_close(got, want, 'selected value')


EXPRESSIONS = {
    'Br * Vr': (lambda b, v, n: b * v, 1e-9 * 1e3, 'T m / s'),
    'Br / Vr': (lambda b, v, n: b / v, 1e-9 / 1e3, 'T s / m'),
    'Vr^2 / Br': (lambda b, v, n: v * v / b, 1e6 / 1e-9, 'm^2 / (s^2 T)'),
    'Rho * Vr^2': (lambda b, v, n: n * v * v, 1e6 * 1e6, 'm^2 / (s^2 m^3)'),
    'Br^2 / Rho': (lambda b, v, n: b * b / n, 1e-18 / 1e6, 'T^2 m^3'),
    'Br / Vr / Rho': (lambda b, v, n: b / v / n, 1e-9 / 1e3 / 1e6, None),
    'Br^-1 * Vr': (lambda b, v, n: v / b, 1e3 / 1e-9, 'm / (s T)'),
}


@case('C14', 'products, ratios and powers of up to three quantities of any'
      ' nonzero values, at two times and shells, with or without constraints',
      O, shard=('expression', 7), warm=dataset.warm)
def expressions(cx):
    name = cx.choice('expression', list(EXPRESSIONS))
    f, k, unit = EXPRESSIONS[name]
    shape = (2, 2)
    b = cx.array('b', shape, lo=0.125, hi=100)
    v = cx.array('v', shape, lo=0.125, hi=100)
    n = cx.array('n', shape, lo=0.125, hi=100)
    o = dataset.Observer(dataset.grid(cx, 2, 2, Br=b, Vr=v, Rho=n))
    kw, ti, si = cx.choice('given', [
        ({}, [0, 1], [0, 1]), ({'time': 1}, [1], [0, 1]),
        ({'time': [1, 0], 'shell': 0}, [1, 0], [0])])
    q = o[name]
    cx.check(tuple(q.dimensions) == ('time', 'shell'), 'dimensions')
    r = q.observe(**kw)
    cx.check(r.unit == q.unit, 'the unit of the observable')
    if unit:
        cx.check(r.unit | unit, 'consistent with the expected unit')
    cx.check(tuple(r.dimensions) == ('time', 'shell'), 'dimensions')
    got = numpy.array(r.data)
    want = [[f(b[i, j], v[i, j], n[i, j]) for j in si] for i in ti]
    cx.check_all_close(got / k, want, 'value')


@case('C14', 'a product and a power, observed at a time between two ascending'
      ' times: the product is interpolated', I, warm=dataset.warm)
def expression_between_times(cx):
    cx.float_arrays()
    xs = cx.reals('x', 2, lo=0, hi=50)
    ascending(cx, xs)
    b = cx.array('b', (2, 1), lo=-20, hi=20)
    v = cx.array('v', (2, 1), lo=-20, hi=20)
    o = dataset.Observer(dataset.grid(
        cx, 2, 1, Br=b, Vr=v, time=cx.to_array(xs)))
    t = cx.real('t', lo=0, hi=50)
    within(cx, xs, t)
    r = o['Br * Vr'].observe(time=(t, 'day'))
    got = numpy.array(r.data)
    cx.check(got.shape == (1, 1), 'shape')
    ws = weights(cx, xs, t)
    cx.check_close(got[0, 0] * 1e6, mix(ws, (b * v)[:, 0]), 'value', scale=400)


@case('C14', 'two successive observations of one or two quantities of any values,'
      ' each with its own constraints out of six', O, shard=('first', 6),
      warm=dataset.warm)
def constraints_do_not_leak(cx):
    ways = [({}, [0, 1], [0, 1]), ({'time': 1}, [1], [0, 1]),
            ({'shell': 0}, [0, 1], [0]), ({'time': [1, 0]}, [1, 0], [0, 1]),
            ({'time': 0, 'shell': 1}, [0], [1]),
            ({'shell': [1]}, [0, 1], [1])]
    first = cx.choice('first', ways)
    second = cx.choice('second', ways)
    names = cx.choice('names', [('Br', 'Br'), ('Br', 'Vr')])
    data = {'Br': cx.array('b', (2, 2)), 'Vr': cx.array('v', (2, 2))}
    k = {'Br': 1e-9, 'Vr': 1e3}
    o = dataset.Observer(dataset.grid(cx, 2, 2, **data))
    q = {n: o[n] for n in names}
    r = [q[n].observe(**way[0]) for n, way in zip(names, (first, second))]
    for n, x, (_, ti, si) in zip(names, r, (first, second)):
        want = data[n][ti][:, si]
        got = numpy.array(x.data)
        cx.check(got.shape == want.shape, 'shape')
        cx.check_all_close(got / k[n], want, 'the observation of its own'
                           ' constraints')
        cx.check(list(x['shell'].data) == si, 'axis values')


@case('C14', 'a quantity with parameters of any positive default and user values,'
      ' in several units: two observations with and without the user values', O,
      warm=dataset.warm)
def parameters(cx):
    l0 = cx.real('l0', lo=0.125, hi=10)
    l1 = cx.real('l1', lo=0.125, hi=10)
    unit, k = cx.choice('unit', [('au', AU), ('m', 1), ('km', 1000)])
    p0 = cx.choice('p0', [1.0, 2.0])
    R = numpy.array([[1.0, 2.0]])
    o = dataset.Observer(dataset.grid(cx, 1, 2, R=R), constants={
        'lambda0': physical.scalar((l0, 'au')),
        'mfp_radial_power': physical.scalar((p0, '1')),
        'rigidity_power': physical.scalar((2.0, '1')),
    })
    q = o['mfp']
    cx.check(set(q.parameters) >= {'lambda0', 'mfp_radial_power',
                                   'rigidity_power'}, 'parameters')
    a = q.observe()
    b = q.observe(lambda0=(l1, unit))
    c = q.observe(mfp_radial_power=3.0)
    d = q.observe()
    cx.check(set(a.parameters) == {'lambda0', 'mfp_radial_power',
                                   'rigidity_power'}, 'parameters used')
    cx.check(a.unit == 'm', 'unit')
    got = [numpy.array(x.data) for x in (a, b, c, d)]
    cx.check(all(x.shape == (1, 2, 2, 3) for x in got), 'shape')
    for x, l, p in zip(got, (l0 * AU, l1 * k, l0 * AU, l0 * AU),
                       (p0, p0, 3.0, p0)):
        # lambda0 is the mean free path at 1 au and 1 MeV
        for s in range(2):
            cx.check_close(x[0, 0, s, 0], l, 'at 1 au and 1 MeV')
            cx.check_close(x[0, 1, s, 0], l * 2 ** p, 'at 2 au and 1 MeV')
            for e in range(3):
                cx.check_close(x[0, 1, s, e], x[0, 0, s, e] * 2 ** p,
                               'power of the radius')
    cx.check_close(float(b['lambda0']), l1 * k, 'the user value')
    cx.check_close(float(a['lambda0']), l0 * AU, 'the default value')
    cx.check_close(float(d['lambda0']), l0 * AU, 'the default value again')


@case('C14', 'a quantity of any values, observed and then converted to two other'
      ' units', O, warm=dataset.warm)
def observation_units(cx):
    b = cx.array('b', (2, 2))
    o = dataset.Observer(dataset.grid(cx, 2, 2, Br=b))
    k = {'T': 1, 'nT': 1e-9, 'G': 1e-4, 'uT': 1e-6}
    u0 = cx.choice('u0', list(k))
    u1 = cx.choice('u1', list(k))
    q = o['Br']
    cx.check(q.unit == 'T', 'default unit')
    q0 = q[u0]
    cx.check(q0.unit == u0, 'requested unit')
    cx.check(q.unit == 'T', 'the observable keeps its unit')
    r0 = q0.observe(time=1)
    r1 = r0[u1]
    for r, u in ((r0, u0), (r1, u1)):
        cx.check(r.unit == u, 'unit of the observation')
        cx.check_all_close(numpy.array(r.data) * (k[u] / 1e-9), b[[1]], 'value')
        cx.check_all_close(r.array * (k[u] / 1e-9), b[1], 'squeezed')
    cx.check(r0.unit == u0, 'the observation keeps its unit')
    cx.raises((ValueError, KeyError), lambda: r0['m'], label='inconsistent')
    how = cx.choice('system', ['mks', 'MKS', 'cgs'])
    q2 = q0[how]
    r2 = q2.observe(time=1)
    cx.check(r2.unit == ('G' if how == 'cgs' else 'T'), 'unit of the system')
    cx.check_all_close(numpy.array(r2.data)
                       * ((1e-4 if how == 'cgs' else 1) / 1e-9), b[[1]],
                       'value in the system')


@case('C14', 'a quantity of any values, observed through each of its names, in two'
      ' metric systems', O, warm=dataset.warm)
def names(cx):
    system, k, unit = cx.choice('system', [
        ('mks', 1e3, 'm / s'), ('cgs', 1e5, 'cm / s')])
    name = cx.choice('name', ['Vr', 'vr', 'Vt', 'vtheta', 'Vtheta', 'vt'])
    v = cx.array('v', (2, 2), lo=0.125, hi=100)
    w = cx.array('w', (2, 2), lo=0.125, hi=100)
    o = dataset.Observer(dataset.grid(cx, 2, 2, Vr=v, Vt=w), system=system)
    r = o[name].observe(time=1)
    want = v if name in ('Vr', 'vr') else w
    cx.check(r.unit == unit, 'unit of the metric system')
    cx.check_all_close(numpy.array(r.data) / k, want[[1]], 'value')
    cx.check(o.observes(name), 'observes a name')
    cx.check(o.observes(f'{name} / r'), 'observes a ratio')
    cx.check(not o.observes('nothing'), 'does not observe an unknown name')
    cx.check(not o.observes(f'{name} / nothing'), 'nor a ratio with one')
    cx.raises(Exception, lambda: o['nothing'], label='unknown')


PRIMARY = [  # stored as, every name, MKS unit and factor, CGS unit and factor
    ('R', ('radius', 'R', 'r'), ('m', 1.495978707e11), ('cm', 1.495978707e13)),
    ('T', ('theta', 'T'), ('rad', 1.0), ('rad', 1.0)),
    ('P', ('phi', 'P'), ('rad', 1.0), ('rad', 1.0)),
    ('Br', ('Br', 'br'), ('T', 1e-9), ('G', 1e-5)),
    ('Bt', ('Bt', 'bt', 'Btheta', 'btheta'), ('T', 1e-9), ('G', 1e-5)),
    ('Bp', ('Bp', 'bp', 'Bphi', 'bphi'), ('T', 1e-9), ('G', 1e-5)),
    ('Vr', ('Vr', 'vr'), ('m / s', 1e3), ('cm / s', 1e5)),
    ('Vt', ('Vt', 'vt', 'Vtheta', 'vtheta'), ('m / s', 1e3), ('cm / s', 1e5)),
    ('Vp', ('Vp', 'vp', 'Vphi', 'vphi'), ('m / s', 1e3), ('cm / s', 1e5)),
    ('Rho', ('rho', 'Rho'), ('m^-3', 1e6), ('cm^-3', 1.0)),
    ('Dist', ('dist', 'Dist', 'f'), ('s^3 / m^6', 1e-18), ('s^3 / cm^6', 1e-30)),
]


@case('C14', 'every stored quantity of a dataset with any value at two times and'
      ' one shell, observed through each of its names, in two metric systems', O,
      warm=dataset.warm)
def every_name(cx):
    stored, names, *systems = cx.choice('stored', PRIMARY)
    k = cx.choice('system', [0, 1])
    unit, factor = systems[k]
    arrays = {row[0]: numpy.array([[1.0 + i], [2.0 + i]])
              for i, row in enumerate(PRIMARY[:-1])}
    arrays['Dist'] = numpy.ones((2, 1, 2, 3, 3))
    x = cx.real('x', 0.125, 100)
    a = arrays[stored].astype(object if cx.symbolic else float)
    a[1] = a[1] * x
    arrays[stored] = a
    o = dataset.Observer(dataset.grid(cx, 2, 1, **arrays),
                         system=['mks', 'cgs'][k])
    for name in names:
        q = o[name]
        r = q.observe(time=1)
        cx.check(r.unit == unit and q.unit == unit, 'unit')
        got = numpy.array(r.data)
        cx.check(got.shape == a[[1]].shape, 'shape')
        for u, v in zip(got.ravel(), a[[1]].ravel()):
            cx.check_close(u, v * factor, 'value')


@case('C14', 'two observations of quantities of any values at two times and one'
      ' shell, with or without a constraint and another unit: equal exactly if'
      ' their values, units and axes are', O, warm=dataset.warm)
def equality(cx):
    b = cx.array('b', (2, 1), lo=-20, hi=20)
    v = cx.array('v', (2, 1), lo=-20, hi=20)
    o = dataset.Observer(dataset.grid(cx, 2, 1, Br=b, Bt=v, Vr=v))
    kinds = [('Br', None, {}), ('Br', None, {'time': 1}), ('Bt', None, {}),
             ('Bt', None, {'time': 0}), ('Br', 'nT', {}), ('Vr', None, {})]
    first = cx.choice('first', kinds)
    second = cx.choice('second', kinds)

    def observe(name, unit, given):
        r = o[name].observe(**given)
        return r[unit] if unit else r

    x, y = observe(*first), observe(*second)
    cx.check(x == x, 'equal to itself')
    if first == second:
        cx.check(x == y, 'observed twice')
        cx.check(not x != y, 'observed twice: not different')
        return
    same = False
    if first[1:] == second[1:] and {first[0], second[0]} == {'Br', 'Bt'}:
        same = cx.both(*[i == j for i, j in zip(b[:, 0], v[:, 0])])
    if not cx.decide(same):  # otherwise only the names differ
        cx.check(not x == y, 'different values, units or axes')
        cx.check(x != y, 'different')
    cx.check(not x == 'Br', 'not a name')


@case('C14', 'which names can be observed: stored and computed quantities, an'
      ' excluded quantity of any values, and a constant of any value', O,
      warm=dataset.warm)
def observables(cx):
    v = cx.array('v', (2, 1), lo=0.125, hi=100)
    k = cx.real('k', lo=0.125, hi=100)
    more = [dataset.variable('preEruption', v[:, 0], 'day', ('time',))]
    arrays = {a: numpy.ones((2, 1)) for a in ('Br', 'Bt', 'Bp', 'Vr')}
    base = dataset.grid(cx, 2, 1, **arrays)
    data = dataset.Data({a: b.data for a, b in base.variables.items()
                         if a in dataset.LAYOUT}, more=more)
    o = dataset.Observer(
        data, constants={'lambda0': physical.Scalar(k, unit='au')})
    for names in (['Br', 'br'], ['B', 'b_mag', '|B|'], ['radius', 'r', 'R']):
        for name in names:
            cx.check(name in o.observables, 'observable')
            cx.check(o.observes(name), 'observed by name')
            cx.check(name in o.context, 'available')
            cx.check(isinstance(o[name], observing.Observable), 'observable')
        cx.check(o.observes(names), 'observed by one of its names')
        cx.check(o.observes(tuple(names)), 'observed by one of its names')
    for names in (['nothing'], ['neither', 'nor'], []):
        cx.check(not o.observes(names), 'not observed')
    for name in ('preEruption', 'lambda0'):
        cx.check(name not in o.observables, 'not observable')
        cx.check(not o.observes(name), 'not observed')
        cx.check(not o.observes(f'{name} * Br'), 'nor in a product')
        cx.check(name in o.context, 'yet available')
    q = o['preEruption']
    cx.check(isinstance(q, variable.Quantity), 'the stored quantity')
    cx.check_all_close(numpy.array(q) / 86400, v[:, 0], 'its values', scale=1)
    c = o['lambda0']
    cx.check(c.unit == 'au', 'unit of a constant')
    cx.check_close(float(c) if not cx.symbolic else c.data, k, 'a constant')
