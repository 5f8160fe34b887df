"""A dataset in memory, with the layout of an EPREM dataset."""
import numpy

from goats import eprem
from goats.core import aliased, datafile, reference

AXES = ('time', 'shell', 'species', 'energy', 'mu')

LAYOUT = {
    # name: (unit on disk, dimensions)
    'time': ('julian date', ('time',)),
    'shell': ('shell', ('shell',)),
    'mass': ('nucleon', ('species',)),
    'charge': ('e-', ('species',)),
    'egrid': ('MeV', ('species', 'energy')),
    'vgrid': ('cm/s', ('species', 'energy')),
    'mu': ('cos(mu)', ('mu',)),
    'R': ('au', ('time', 'shell')),
    'T': ('radian', ('time', 'shell')),
    'P': ('radian', ('time', 'shell')),
    'Br': ('nT', ('time', 'shell')),
    'Bt': ('nT', ('time', 'shell')),
    'Bp': ('nT', ('time', 'shell')),
    'Vr': ('km/s', ('time', 'shell')),
    'Vt': ('km/s', ('time', 'shell')),
    'Vp': ('km/s', ('time', 'shell')),
    'Rho': ('cm^-3', ('time', 'shell')),
    'flux': ('# / cm^2 s sr MeV', ('time', 'shell', 'species', 'energy')),
    'Dist': ('s^3/km^6', ('time', 'shell', 'species', 'energy', 'mu')),
}

DAY = 86400
AU = 1.495978707e11


def variable(name, data, unit=None, dimensions=None):
    u, d = LAYOUT.get(name, (unit, dimensions))
    return datafile.Variable(data, unit or u, dimensions or d, name)


class Data:
    """Stands for a datafile.Interface without a file."""

    def __init__(self, arrays, axes=AXES, more=()):
        members = {k: variable(k, v) for k, v in arrays.items()}
        members.update({v.name: v for v in more})
        self.variables = aliased.Mapping(members, aliases=reference.ALIASES)
        self.names = tuple(axes)

    def available(self, key):
        return datafile.SubsetKeys((), (), self.names)


def steps(n):
    return numpy.arange(float(n))


class Observer(eprem.observer.Interface):
    """An observer of a dataset in memory."""

    def __init__(self, data, constants=None, system='mks'):
        context = eprem.Context(
            eprem.Variables(data, system=system),
            eprem.Axes(data, system=system),
            constants or {},
        )
        super().__init__('preEruption', 'phiOffset', context=context)


def grid(cx, T, S, /, **arrays):
    """A dataset with T time steps and S shells; concrete unless given."""
    base = {
        'time': numpy.array([0.0, 0.5, 1.0, 2.0, 3.0][:T]),
        'shell': steps(S),
        'mass': numpy.array([1.0, 4.0]),
        'charge': numpy.array([1.0, 2.0]),
        'egrid': numpy.array([[1.0, 2.0, 4.0]] * 2),
        'vgrid': numpy.array([[1.0, 2.0, 4.0]] * 2),
        'mu': numpy.array([-1.0, 0.0, 1.0]),
        'R': numpy.array([[1.0 + 0.5 * s + 0.25 * t for s in range(S)]
                          for t in range(T)]),
        'T': numpy.ones((T, S)),
        'P': numpy.ones((T, S)),
    }
    base.update(arrays)
    return Data(base)


def warm():
    """Observe concretely, to fill the caches of the units in use."""
    t = numpy.ones((2, 2))
    o = Observer(grid(None, 2, 2, Br=t, Vr=t))
    for u in (None, 'nT', 'G'):
        q = o['Br'][u] if u else o['Br']
        for given in ({}, {'time': (0.1, 'day')}, {'time': (1, 's')},
                      {'radius': (1.3, 'au')}, {'energy': (1.5, 'MeV')}):
            q.observe(**given)
    o['Br / Vr'].observe()
