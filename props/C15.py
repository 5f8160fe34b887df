"""C15: the functions that compute physical quantities."""
import numpy

from sx.context import case
from props import dataset
from goats.core import computed, physical

F = 'goats.core.computed.'
LO, HI = 0.125, 100
C = 2.9979e8
MP = 1.6726e-27
EV = 1.6022e-19
AU = dataset.AU


@case('C15', 'radii, polar and azimuthal angles of any size at one time and two'
      ' shells', (F + 'x', F + 'y', F + 'z'))
def cartesian(cx):
    r = cx.array('r', (1, 2), lo=LO, hi=HI)
    t = cx.array('t', (1, 2), lo=LO, hi=3)
    p = cx.array('p', (1, 2), lo=LO, hi=3)
    x, y, z = computed.x(r, t, p), computed.y(r, t, p), computed.z(r, t)
    for i in range(2):
        R, T, P = r[0, i], t[0, i], p[0, i]
        sin, cos = numpy.sin, numpy.cos
        cx.check_close(x[0, i], R * sin(T) * cos(P), 'x', scale=R)
        cx.check_close(y[0, i], R * sin(T) * sin(P), 'y', scale=R)
        cx.check_close(z[0, i], R * cos(T), 'z', scale=R)


def vectors(cx, name, shape, lo=-HI):
    return [cx.array(f'{name}{i}', shape, lo=lo, hi=HI) for i in 'rtp']


@case('C15', 'magnetic field and velocity of any size and direction at one time'
      ' and two shells', (F + 'b_mag', F + 'v_mag', F + 'bv_mag'))
def magnitudes(cx):
    b = vectors(cx, 'b', (1, 2))
    v = vectors(cx, 'v', (1, 2))
    for f, u in ((computed.b_mag, b), (computed.v_mag, v)):
        m = f(*u)
        cx.check(m.shape == (1, 2), 'shape')
        for i in range(2):
            cx.check(m[0, i] >= 0, 'not negative')
            want = sum(c[0, i] * c[0, i] for c in u)
            cx.check_close(m[0, i] * m[0, i], want, 'square')
    bv = computed.bv_mag(*b, *v)
    bm, vm = computed.b_mag(*b), computed.v_mag(*v)
    for i in range(2):
        cx.check_close(bv[0, i], bm[0, i] * vm[0, i], 'product')


@case('C15', 'a magnetic field along any axis, or with two positive components,'
      ' and any velocity, at one time and one shell',
      (F + 'v_para', F + 'v_perp', F + 'flow_angle'))
def parallel_and_perpendicular(cx):
    v = [cx.array(f'v{i}', (1, 1), lo=LO, hi=HI) for i in 'rtp']
    where = cx.choice('b', [(0,), (1,), (2,), (0, 1), (1, 2), (0, 2)])
    zero = numpy.zeros((1, 1))
    b = [cx.array(f'b{i}', (1, 1), lo=LO, hi=HI) if i in where else zero
         for i in range(3)]
    para = computed.v_para(*v, *b)[0, 0]
    m = computed.b_mag(*b)[0, 0]
    dot = sum(i[0, 0] * j[0, 0] for i, j in zip(b, v))
    big = HI * HI * 3
    cx.check_close(para * m, dot, 'parallel component')
    if len(where) == 1:
        perp = computed.v_perp(*v, *b)[0, 0]
        cx.check(perp >= 0, 'perpendicular component is not negative')
        want = sum(v[i][0, 0] * v[i][0, 0] for i in range(3) if i not in where)
        cx.check_close(perp * perp, want, 'perpendicular component', scale=big)
        angle = computed.flow_angle(*b, *v)[0, 0]
        vm = computed.v_mag(*v)[0, 0]
        cx.check_close(numpy.cos(angle) * (m * vm), dot, 'cosine of the angle',
                       scale=big)
        cx.check(cx.both(angle >= 0, angle <= 3.15), 'range of the angle')


@case('C15', 'densities of any positive value at one to four times and two'
      ' shells', (F + 'density_ratio',))
def density_ratio(cx):
    n = cx.choice('n', [1, 2, 3, 4])
    rho = cx.array('n', (n, 2), lo=LO, hi=HI)
    r = computed.density_ratio(rho)
    cx.check(r.shape == (n, 2), 'shape')
    for t in range(n):
        for s in range(2):
            cx.check_close(r[t, s] * rho[0, s], rho[t, s], 'ratio to the first')


@case('C15', 'densities of any positive value at two or three ascending times'
      ' and one or two shells', (F + 'div_v',))
def divergence(cx):
    n, S = cx.choice('n', [(2, 1), (2, 2), (3, 1)])
    rho = cx.array('n', (n, S), lo=LO, hi=HI)
    t = cx.array('t', (n,), lo=0, hi=HI)
    for a, b in zip(t[:-1], t[1:]):
        cx.assume(b - a >= 1 / 8)
    d = computed.div_v(rho, t)
    cx.check(d.shape == (n, S), 'shape')
    for s in range(S):
        y = [numpy.log(rho[i, s]) for i in range(n)]
        h = [t[i + 1] - t[i] for i in range(n - 1)]
        first = -(y[1] - y[0]) / h[0]
        last = -(y[-1] - y[-2]) / h[-1]
        cx.check_close(d[0, s], first, 'first', scale=100)
        cx.check_close(d[n - 1, s], last, 'last', scale=100)
        if n == 3:
            # weighted by the opposite interval
            want = (first * h[1] + last * h[0]) / (h[0] + h[1])
            cx.check_close(d[1, s], want, 'between', scale=100)


@case('C15', 'two species of any mass and charge, each with two energies of any'
      ' positive size', (F + 'rigidity',))
def rigidity(cx):
    e = cx.array('e', (2, 2), lo=LO, hi=HI)
    m = cx.array('m', (2,), lo=LO, hi=HI)
    q = cx.array('q', (2,), lo=1, hi=8)
    # scaled so that the rest energy is comparable to the kinetic energy
    energy = e * (C * C)
    r = computed.rigidity(energy, m, q)
    cx.check(r.shape == (2, 2), 'one value for each energy')
    for s in range(2):
        for i in range(2):
            cx.check(r[s, i] >= 0, 'not negative')
            p = r[s, i] * q[s] / C
            want = (e[s, i] + m[s]) * (e[s, i] + m[s]) - m[s] * m[s]
            cx.check_close(p * p, want, 'relativistic momentum', scale=1e4)


@case('C15', 'two shells at any radius, two species, any mean free path at 1 au'
      ' and 1 MeV, and five pairs of powers', (F + 'mean_free_path',))
def mean_free_path(cx):
    r = cx.array('r', (1, 2), lo=LO, hi=HI)
    m = numpy.array([1.0, 4.0]) * MP
    q = numpy.array([1.0, 2.0]) * EV
    E = numpy.array([[1.0, 2.0], [1.0, 4.0]])
    l0 = cx.real('l', lo=LO, hi=HI)
    a, b = cx.choice('powers', [
        (0.0, 0.0), (1.0, 2.0), (2.0, 1.0), (-1.0, 2.0), (2.0, 0.5)])
    f = computed.mean_free_path(r * AU, E * 1e6 * EV, m, q, a, b, l0)
    cx.check(f.shape == (1, 2, 2, 2), 'time, shell, species, energy')
    for s in range(2):
        k = r[0, s] ** int(a)
        for p in range(2):
            for e in range(2):
                rest = m[p] * C * C / (1e6 * EV)
                pc = ((E[p, e] + rest) ** 2 - rest ** 2) ** 0.5
                pc0 = ((1 + rest) ** 2 - rest ** 2) ** 0.5
                cx.check_close(f[0, s, p, e], l0 * k * float(pc / pc0) ** b,
                               'scaling with radius and rigidity')


def moment(v, f, n, power):
    dv = [v[1] - v[0]] + [(v[i + 1] - v[i - 1]) / 2 for i in range(1, n - 1)]
    dv.append(v[n - 1] - v[n - 2])
    return sum(v[i] ** power * f[i] * dv[i] for i in range(n))


@case('C15', 'two species with two to four speeds of any size, an isotropic'
      ' distribution of any non-negative values at one time and shell',
      (F + 'energy_density',))
def energy_density(cx):
    n = cx.choice('n', [2, 3, 4])
    v = cx.array('v', (2, n), lo=LO, hi=10)
    f = cx.array('f', (1, 1, 2, n), lo=LO, hi=10)
    density = computed.energy_density(v, f)
    cx.check(density.shape == (1, 1, 2), 'shape')
    for p in range(2):
        cx.check_close(density[0, 0, p] / MP, moment(v[p], f[0, 0, p], n, 4),
                       'fourth moment', scale=1e5)


@case('C15', 'two species with two to four speeds, an isotropic distribution of'
      ' any positive values at one time and two shells',
      (F + 'average_energy', F + 'energy_density'))
def average_energy(cx):
    n = cx.choice('n', [2, 3, 4])
    v = numpy.array([[1.0, 2.0, 4.0, 5.0][:n], [0.5, 1.0, 3.0, 7.0][:n]])
    f = cx.array('f', (1, 2, 2, n), lo=LO, hi=10)
    average = computed.average_energy(v, f)
    cx.check(average.shape == (1, 2, 2), 'shape')
    for s in range(2):
        for p in range(2):
            two = moment(v[p], f[0, s, p], n, 2)
            four = moment(v[p], f[0, s, p], n, 4)
            cx.check_close(average[0, s, p] * two / MP, four / 2,
                           'half of the ratio of moments')


@case('C15', 'a distribution of any values at one to four pitch angles',
      (F + 'isotropic_distribution',))
def isotropic(cx):
    n = cx.choice('n', [1, 2, 3, 4])
    d = cx.array('d', (1, 2, 1, 2, n))
    r = computed.isotropic_distribution(d)
    cx.check(r.shape == (1, 2, 1, 2), 'shape')
    for i in numpy.ndindex(1, 2, 1, 2):
        cx.check_close(r[i] * n, sum(d[i]), 'mean', scale=1000)


@case('C15', 'a distribution of any values for two species and energies',
      (F + 'flux',))
def differential_flux(cx):
    e = cx.array('e', (2, 2), lo=LO, hi=HI)
    f = cx.array('f', (1, 2, 2, 2), lo=0, hi=HI)
    r = computed.flux(e, f)
    cx.check(r.shape == (1, 2, 2, 2), 'shape')
    for t, s, p, i in numpy.ndindex(1, 2, 2, 2):
        cx.check_close(r[t, s, p, i] * (MP * MP), 2 * e[p, i] * f[t, s, p, i],
                       'flux')


@case('C15', 'a flux that is any linear function of time at two to five (any'
      ' ascending) times, for two energies', (F + 'fluence',))
def fluence(cx):
    n = cx.choice('n', [2, 3, 4, 5])
    t = cx.array('t', (n,), lo=0, hi=HI)
    for a, b in zip(t[:-1], t[1:]):
        cx.assume(b - a >= 1 / 8)
    a = cx.array('a', (1, 1, 2), lo=0, hi=HI)
    b = cx.array('b', (1, 1, 2), lo=0, hi=HI)
    flux = numpy.array([a + b * x for x in t])
    r = computed.fluence(flux, t)
    cx.check(r.shape == (1, 1, 2), 'shape')
    for i in numpy.ndindex(1, 1, 2):
        T = t[n - 1] - t[0]
        cx.check_close(r[i], (a[i] + b[i] * (t[0] + t[n - 1]) / 2) * T,
                       'integral over time', scale=HI * HI)


@case('C15', 'a flux that is constant or proportional to energy over three or'
      ' four energies, equal for both species or not, integrated above one or'
      ' two energies of any size below the second largest',
      (F + 'integral_flux', F + '_interpolate'), shard=('grid', 3))
def integral_flux(cx):
    cx.float_arrays()
    E, scale = cx.choice('grid', [
        ((1.0, 2.0, 4.0), 1.0), ((1.0, 3.0, 4.0, 8.0), 1.0),
        ((1.0, 2.0, 4.0), 1.5)])
    E = [E, [x * scale for x in E]]
    n = len(E[0])
    law = cx.choice('law', [0, 1])
    a = [[1.5, 2.0], [3.0, 0.5]]  # shell, species
    values = [[[[k * e ** law for e in E[p]] for p, k in enumerate(row)]
               for row in a]]
    flux = numpy.array(values)
    if cx.symbolic:
        flux = flux.astype(object)
    e = cx.to_array([*E[0], *E[1]]).reshape(2, n)
    count = cx.choice('count', [1, 2])
    ms = cx.reals('m', count, lo=LO, hi=E[0][-2])
    r = computed.integral_flux(e, flux, *ms)
    cx.check(r.shape == (1, 2, 2, count), 'shape')
    for i, m in enumerate(ms):
        for p in range(2):
            first, last = E[p][0], E[p][-1]
            low = m if cx.decide(m > first) else first
            area = last - low if law == 0 else (last * last - low * low) / 2
            for s in range(2):
                cx.check_close(r[0, s, p, i], a[s][p] * area,
                               'integral over energy')
    for one in (computed.integral_flux(e[0], flux[:, :, 0, :], *ms),
                computed.integral_flux(e[0], flux[:, :, :1, :], *ms)):
        cx.check(one.shape == (1, 2, 1, count), 'one species: shape')
        for s in range(2):
            for i in range(count):
                cx.check_close(one[0, s, 0, i], r[0, s, 0, i],
                               'one species: as among several')
    for s in range(2):
        for p in range(2):
            for i in range(n):
                cx.check_close(flux[0, s, p, i], values[0][s][p][i],
                               'the flux stays the same')
                cx.check_close(e[p, i], E[p][i], 'the energies stay the same')


@case('C15', 'velocities, angles and mean free paths of any size at one time and'
      ' three shells, for one species and two speeds',
      (F + 'acceleration_rate', F + '_ahead', F + '_behind'))
def acceleration_rate(cx):
    S = cx.choice('S', [1, 2, 3])
    v = [cx.array(f'v{i}', (1, S), lo=LO, hi=HI) for i in 'r']
    v += [numpy.zeros((1, S))] * 2
    w = cx.array('w', (1, 2), lo=LO, hi=HI)
    angle = cx.array('a', (1, S), lo=LO, hi=3)
    mfp = cx.array('m', (1, S, 1, 2), lo=LO, hi=HI)
    k = cx.real('k', lo=0.125, hi=1)
    r = computed.acceleration_rate(*v, w, angle, mfp, k)
    cx.check(r.shape == (1, S, 1, 2), 'shape')
    u = v[0][0]
    for e in range(2):
        def kxx(s):
            c, z = numpy.cos(angle[0, s]), numpy.sin(angle[0, s])
            return mfp[0, s, 0, e] * (c * c + k * z * z) * w[0, e] / 3 / u[s]
        for s in range(S):
            i, j = min(s + 1, S - 1), max(s - 1, 0)
            dv = u[i] * abs(1 - u[i] * u[j] / (u[i] * u[i]))
            dx = 3 * (kxx(i) + kxx(j))
            cx.check_close(r[0, s, 0, e] * dx, dv, 'velocity difference over'
                           ' scattering length', scale=HI)


# What an observer computes: the registered function of the MKS values of the
# named arguments, with the named dimensions and unit.
FACTORS = {
    'r': ('R', AU), 'theta': ('T', 1.0), 'phi': ('P', 1.0),
    'br': ('Br', 1e-9), 'bt': ('Bt', 1e-9), 'bp': ('Bp', 1e-9),
    'vr': ('Vr', 1e3), 'vt': ('Vt', 1e3), 'vp': ('Vp', 1e3),
    'rho': ('Rho', 1e6), 'time': ('time', 86400.0),
    'energy': ('egrid', 1e6 * EV), 'speed': ('vgrid', 1e-2),
    'mass': ('mass', 1.6605e-27), 'charge': ('charge', EV),
    'dist': ('Dist', 1e-18), 'flux': ('flux', 1e4 / (1e6 * EV)),
}
TS, SE = ('time', 'shell'), ('species', 'energy')
V3, B3 = ('vr', 'vt', 'vp'), ('br', 'bt', 'bp')
COMPUTED = {
    'x': (('r', 'theta', 'phi'), TS, 'm'),
    'y': (('r', 'theta', 'phi'), TS, 'm'),
    'z': (('r', 'theta'), TS, 'm'),
    'b_mag': (B3, TS, 'T'),
    'v_mag': (V3, TS, 'm/s'),
    'bv_mag': (B3 + V3, TS, 'T m/s'),
    'v_para': (V3 + B3, TS, 'm/s'),
    'v_perp': (V3 + B3, TS, 'm/s'),
    'flow_angle': (B3 + V3, TS, 'radian'),
    'density_ratio': (('rho',), TS, '1'),
    'div_v': (('rho', 'time'), TS, 's^-1'),
    'rigidity': (('energy', 'mass', 'charge'), SE, 'kg m / (s C)'),
    'mean_free_path': (('r', 'energy', 'mass', 'charge', 'mfp_radial_power',
                        'rigidity_power', 'lambda0'), TS + SE, 'm'),
    'acceleration_rate': (V3 + ('speed', 'flow_angle', 'mean_free_path',
                                'kper_kpar'), TS + SE, 's^-1'),
    'isotropic_distribution': (('dist',), TS + SE, 's^3/m^6'),
    'flux': (('energy', 'isotropic_distribution'), TS + SE, 'm^-2 s^-1 sr^-1 J^-1'),
    'energy_density': (('speed', 'isotropic_distribution'),
                       TS + SE[:1], 'J m^-3'),
    'average_energy': (('speed', 'isotropic_distribution'),
                       TS + SE[:1], 'J'),
    'fluence': (('flux', 'time'), ('shell',) + SE, 'm^-2 sr^-1 J^-1'),
    'integral_flux': (('energy', 'flux', 'minimum_energy'),
                      TS + ('species', 'minimum energy'),
                      'm^-2 s^-1 sr^-1'),
}
PARAMETERS = {
    'lambda0': (0.5, 'au', AU), 'mfp_radial_power': (2.0, '1', 1.0),
    'rigidity_power': (1.0, '1', 1.0), 'kper_kpar': (0.25, '1', 1.0),
    'minimum_energy': (1.5, 'MeV', 1e6 * EV),
}


def expected(name, arrays):
    """The function of this name, given the values in a dataset."""
    if name in PARAMETERS:
        v, _, f = PARAMETERS[name]
        return v * f
    if name in FACTORS and FACTORS[name][0] in arrays:
        key, factor = FACTORS[name]
        return numpy.asarray(arrays[key]) * factor
    return getattr(computed, name)(
        *[expected(a, arrays) for a in COMPUTED[name][0]])


def observer(cx, arrays, system):
    T, S = arrays['R'].shape
    constants = {k: physical.scalar((v, u))
                 for k, (v, u, _) in PARAMETERS.items()}
    return dataset.Observer(dataset.grid(cx, T, S, **arrays),
                            constants=constants, system=system)


def base(T, S):
    """Concrete values of everything that a function may depend on."""
    def values(*shape, seed=1):
        n = int(numpy.prod(shape))
        return numpy.array([1 + (seed * (7 * i + 3)) % 16 / 8
                            for i in range(n)]).reshape(shape)
    names = ('R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho')
    a = {k: values(T, S, seed=i + 1) for i, k in enumerate(names)}
    a['Dist'] = values(T, S, 2, 3, 2, seed=5)
    a['mu'] = numpy.array([-1.0, 1.0])
    a['egrid'] = numpy.array([[1.0, 2.0, 4.0], [1.0, 3.0, 4.0]])
    a['vgrid'] = numpy.array([[1.0, 2.0, 4.0], [1.0, 2.5, 4.0]])
    a['mass'] = numpy.array([1.0, 4.0])
    a['charge'] = numpy.array([1.0, 2.0])
    a['time'] = numpy.array([0.0, 0.5, 1.0, 2.0][:T])
    return a


def compare(cx, arrays, name, system, **given):
    q = observer(cx, arrays, system)[name]
    r = q.observe(**given)
    _, dimensions, unit = COMPUTED[name]
    cx.check(tuple(r.dimensions) == dimensions, 'dimensions')
    cx.check(tuple(q.dimensions) == dimensions, 'dimensions before observing')
    cx.check(r.unit == q.unit, 'unit of the observation')
    got = numpy.array(r[unit].data, dtype=object if cx.symbolic else float)
    want = numpy.asarray(expected(name, {**arrays}))
    cx.check(got.shape == want.shape, 'shape')
    return got, want


def warm():
    a = base(2, 2)
    for system in ('mks', 'cgs'):
        o = observer(None, a, system)
        for k, (_, _, unit) in COMPUTED.items():
            o[k].observe()[unit]


SCALED = {
    'x': ('R',), 'y': ('R',), 'z': ('R',), 'b_mag': ('Br', 'Bt', 'Bp'),
    'v_mag': ('Vr', 'Vt', 'Vp'), 'v_para': ('Vr', 'Vt', 'Vp'),
    'bv_mag': ('Vr', 'Vt', 'Vp'), 'density_ratio': ('Rho',),
    'isotropic_distribution': ('Dist',), 'flux': ('Dist',),
    'fluence': ('Dist',), 'energy_density': ('Dist',),
    'average_energy': ('Dist',), 'acceleration_rate': ('R',),
    'mean_free_path': ('R',), 'rigidity': ('egrid',),
}

PIPE = (F + 'Method.parse', F + 'Quantity.__call__',
        'goats.eprem.Context.compute', 'goats.eprem.Context.get_dependency',
        'goats.eprem.Functions.get_dimensions',
        'goats.eprem.Functions.get_unit')


@case('C15', 'every computed quantity of a dataset with two times and shells,'
      ' scaled by any factor, observed in either metric system', PIPE, warm=warm)
def observed_metadata(cx):
    system = cx.choice('system', ['mks', 'cgs'])
    name = cx.choice('name', sorted(COMPUTED))
    i = cx.choice('i', [0, 1])
    a = base(2, 2)
    k = cx.real('k', lo=LO, hi=HI)
    for leaf in SCALED.get(name, ()):
        a[leaf] = a[leaf].astype(object if cx.symbolic else float) * k
    given = {'shell': i} if 'shell' in COMPUTED[name][1] else {
        'species': 'H+' if i == 0 else 'He++'}
    q = observer(cx, a, system)[name]
    _, dimensions, unit = COMPUTED[name]
    cx.check(tuple(q.dimensions) == dimensions, 'dimensions before observing')
    r = q.observe(**given)
    cx.check(tuple(r.dimensions) == dimensions, 'dimensions')
    cx.check(r.unit == q.unit, 'unit of the observation')
    got = numpy.array(r[unit].data, dtype=object if cx.symbolic else float)
    want = numpy.asarray(expected(name, a))
    at = [slice(None)] * len(dimensions)
    axis = dimensions.index('shell' if 'shell' in given else 'species')
    at[axis] = slice(i, i + 1)
    want = want[tuple(at)]
    cx.check(got.shape == want.shape, 'shape')
    for x, y in zip(got.ravel(), want.ravel()):
        cx.check_close(x, y, 'value')


NAMES = {
    'x': ('x', 'X'), 'y': ('y', 'Y'), 'z': ('z', 'Z'),
    'b_mag': ('B', 'b_mag', '|B|', 'bmag', 'b mag'),
    'v_mag': ('V', 'v_mag', '|V|', 'vmag', 'v mag', 'v', '|v|'),
    'bv_mag': ('BV', 'bv_mag', 'bv', '|bv|', '|BV|'),
    'v_para': ('Vpara', 'v_para', 'vpara'),
    'v_perp': ('Vperp', 'v_perp', 'vperp'),
    'flow_angle': ('flow_angle', 'flow angle', 'angle'),
    'div_v': ('div_v', 'divV', 'divv', 'div V', 'div v', 'div(V)', 'div(v)'),
    'density_ratio': ('density_ratio', 'density ratio', 'n2/n1', 'n_2/n_1'),
    'rigidity': ('rigidity', 'Rg', 'R_g'),
    'mean_free_path': ('mean_free_path', 'mean free path', 'mfp'),
    'acceleration_rate': ('acceleration_rate', 'acceleration rate'),
    'energy_density': ('energy_density', 'energy density'),
    'average_energy': ('average_energy', 'average energy'),
    'isotropic_distribution': (
        'isotropic_distribution', 'isotropic distribution', 'isodist'),
    'flux': ('flux', 'Flux', 'J', 'J(E)', 'j', 'j(E)'),
    'integral_flux': ('integral_flux', 'integral flux'),
}


@case('C15', 'every computed quantity through each of its names, of a dataset'
      ' scaled by any factor', PIPE, warm=warm)
def observed_names(cx):
    name = cx.choice('name', sorted(NAMES))
    a = base(2, 1)
    k = cx.real('k', lo=LO, hi=HI)
    for leaf in SCALED.get(name, ()):
        a[leaf] = a[leaf].astype(object if cx.symbolic else float) * k
    o = observer(cx, a, 'mks')
    want = numpy.asarray(expected(name, a)).ravel()
    _, dimensions, unit = COMPUTED[name]
    for alias in NAMES[name]:
        r = o[alias].observe()
        cx.check(tuple(r.dimensions) == dimensions, 'dimensions')
        got = numpy.array(r[unit].data, dtype=object if cx.symbolic else float)
        for u, v in zip(got.ravel(), want):
            cx.check_close(u, v, 'value by each name')


@case('C15', 'radii, magnetic fields, velocities and densities of any size in a'
      ' dataset with one time and two shells, in either metric system', PIPE,
      warm=warm)
def observed_fields(cx):
    system = cx.choice('system', ['mks', 'cgs'])
    name = cx.choice('name', ['x', 'z', 'b_mag', 'v_mag', 'bv_mag', 'v_para',
                              'density_ratio'])
    a = base(1, 2)
    for k in ('R',) if name in 'xz' else (
            ('Rho',) if name == 'density_ratio' else ('Br', 'Vr')):
        a[k] = cx.array(k, (1, 2), lo=LO, hi=HI)
    if name in ('b_mag', 'v_mag', 'bv_mag', 'v_para'):
        for k in ('Bt', 'Bp', 'Vt', 'Vp'):
            a[k] = numpy.zeros((1, 2))
    got, want = compare(cx, a, name, system)
    for x, y in zip(got.ravel(), want.ravel()):
        cx.check_close(x, y, 'value')


@case('C15', 'a distribution of any size in a dataset with one or two times, one'
      ' shell, two species, three energies and two pitch angles, in either'
      ' metric system', PIPE, warm=warm)
def observed_distributions(cx):
    system = cx.choice('system', ['mks', 'cgs'])
    name = cx.choice('name', ['isotropic_distribution', 'flux',
                              'energy_density', 'fluence'])
    T = 2 if name == 'fluence' else 1
    a = base(T, 1)
    a['Dist'] = cx.array('d', (T, 1, 2, 3, 2), lo=LO, hi=HI)
    got, want = compare(cx, a, name, system)
    for x, y in zip(got.ravel(), want.ravel()):
        cx.check_close(x, y, 'value')


@case('C15', 'energies, masses and charges of any size of two species with two'
      ' energies, in either metric system', PIPE, warm=warm)
def observed_rigidity(cx):
    system = cx.choice('system', ['mks', 'cgs'])
    a = base(1, 1)
    a['Dist'] = a['Dist'][:, :, :, :2]
    a['vgrid'] = a['vgrid'][:, :2]
    e = cx.array('e', (2, 2), lo=LO, hi=HI)
    cx.assume(e[0, 0] < e[0, 1])
    cx.assume(e[1, 0] < e[1, 1])
    a['egrid'] = e
    got, want = compare(cx, a, 'rigidity', system)
    for x, y in zip(got.ravel(), want.ravel()):
        cx.check_close(x * x, y * y, 'square')


@case('C15', 'any scattering length in au, m or cm, given as a constant of the'
      ' dataset or as a constraint', PIPE, warm=warm)
def observed_parameters(cx):
    system = cx.choice('system', ['mks', 'cgs'])
    unit, factor = cx.choice('unit', [('au', AU), ('m', 1.0), ('cm', 0.01)])
    v = cx.real('v', lo=LO, hi=HI)
    a = base(1, 2)
    given = {'lambda0': (v, unit)}
    r = observer(cx, a, system)['mean_free_path'].observe(**given)
    got = numpy.array(r['m'].data, dtype=object if cx.symbolic else float)
    want = expected('mean_free_path', a) / (0.5 * AU)
    for x, y in zip(got.ravel(), want.ravel()):
        cx.check_close(x / factor, float(y) * v, 'value')
