"""C16: the runtime parameters of a simulation."""
import os

import numpy

from sx.context import case
from goats.eprem import runtime
from props.defaults import PARAMETERS

M = 'goats.eprem.runtime.'
DIGITS = '0123456789'


def warm():
    r = runtime.Runtime()
    dict(r)
    runtime.Interface()['lamo']


def strip(text):
    """Without leading and trailing spaces."""
    i, j = 0, len(text)
    while i < j and text[i] == ' ':
        i += 1
    while i < j and text[j - 1] == ' ':
        j -= 1
    return text[i:j]


def parse(text, comment='#'):
    """The names and values in a config file; None if it is not one."""
    pairs = []
    for line in text.split('\n'):
        body = line
        for i in range(len(line)):
            if line[i] == comment:
                body = line[:i]
                break
        if len(strip(body)) == 0:
            continue
        at = [i for i in range(len(body)) if body[i] == '=']
        if not at:
            return None
        k, v = strip(body[:at[0]]), strip(body[at[0] + 1:])
        pairs = [(a, b) for a, b in pairs if not a == k] + [(k, v)]
    return pairs


def check_pairs(cx, parsed, pairs):
    cx.check(len(parsed) == len(pairs), 'one value per name')
    for k, v in pairs:
        cx.check(k in parsed, 'every name')
        cx.check(parsed[k] == v, 'the last value of each name')


@case('C16', 'every text of up to four (thorough: six) characters among a'
      ' letter, "=", "#", a space and a line break', (M + 'ConfigFile._parse',
      M + 'ConfigFile.__getitem__', 'goats.core.iotools.strip_inline_comments'),
      shard=('length', 5))
def any_text(cx):
    n = cx.choice('length', range(cx.bound(5, 7)))
    text = cx.text('s', 'a=# \n', n, n)
    path = cx.file('run.cfg', text)
    pairs = parse(text)
    if pairs is None:
        cx.raises(ValueError, runtime.ConfigFile, path,
                  label='a line that is not an assignment')
        return
    check_pairs(cx, runtime.ConfigFile(path), pairs)


@case('C16', 'two assignments with any values of up to two characters, spaces'
      ' around names and values, inline comments, blank lines and comment'
      ' lines, for one or two kinds of comment', (M + 'ConfigFile._parse',),
      shard=('form', 4))
def assignments(cx):
    form = cx.choice('form', [
        '{a}{s}={s}{v}{e}\n{b}={w}\n',
        '\n{s}{a}={v}\n{e}\n{b} = {w}{e}',
        '{e}\n{a}={v}{s}\n   \n{s}{b}={w}{e}\n\n',
        '{a}={v}{e}\n{s}{e}\n{a}={w}\n',
    ])
    s = cx.choice('s', ['', ' ', '\t', '  '])
    e, comments = cx.choice('e', [
        ('', None), ('# c', None), ('#x=y', None), ('! c=1', ['!']),
        ('!#', ['#', '!']), (' # = #', ['!', '#']),
    ])
    v = cx.text('v', 'x1.[]/', 0, 2)
    w = cx.text('w', 'y2,', 1, 2)
    text = ''
    for part in form.replace('}', '{').split('{'):
        text = text + {'a': 'alpha', 'b': 'beta', 's': s, 'e': e, 'v': v,
                       'w': w}.get(part, part)
    given = {} if comments is None else {'comments': comments}
    parsed = runtime.ConfigFile(cx.file('run.cfg', text), **given)
    pairs = [('alpha', w)] if form.count('{a}') == 2 else [
        ('alpha', v), ('beta', w)]
    check_pairs(cx, parsed, pairs)
    _, err = cx.catch(lambda: parsed['gamma'])
    cx.check(isinstance(err, KeyError), 'an unknown name')


def number(cx, name, forms=('n', '0', 'n.m', '-n', 'ne1')):
    """A text and its value."""
    form = cx.choice(name + '.form', forms)
    if form == '0':
        return '0', 0.0
    n = cx.text(name, DIGITS, 1, 1)
    x = float(ord(n) - 48) if not cx.symbolic else cx_digit(cx, n)
    if form == 'n':
        return n, x
    if form == '-n':
        return '-' + n, -x
    if form == 'n.m':
        return n + '.5', x + 0.5
    return n + 'e1', 10 * x


def cx_digit(cx, n):
    from sx import core, strings
    import z3
    return core.SymReal(z3.ToReal(strings.elements(n)[0].e) - 48)


KINDS = {
    'numRowsPerFace': int, 'dumpFreq': int, 'lamo': float, 'tDel': float,
    'rigidityPower': float, 'warningsFile': str, 'mass': list, 'obsR': list,
}
CORE = (M + 'Runtime.__getitem__', M + 'Runtime._evaluate',
        M + 'Runtime._get_argument', M + 'Runtime._convert')


@case('C16', 'any one-digit value (also negative, fractional, with an exponent,'
      ' or zero) of integer, real, string and list parameters', CORE,
      warm=warm)
def user_values(cx):
    name = cx.choice('name', sorted(KINDS))
    kind = KINDS[name]
    default = runtime.Runtime()[name]
    if kind is int:
        text, value = number(cx, 'n', ('n', '0', '-n'))
    else:
        text, value = number(cx, 'n')
    if kind is list:
        more, other = number(cx, 'm', ('n', 'n.m'))
        text = '[' + text + ', ' + more + ']'
    r = runtime.Runtime(config_path=cx.file(
        'run.cfg', name + cx.choice('eq', ['=', ' = ']) + text + '\n'))
    got = r[name]
    if kind is str:
        cx.check(got == text, 'string')
    elif kind is list:
        cx.check(len(got) == 2, 'number of values')
        cx.check_same(got[0], value, 'first value')
        cx.check_same(got[1], other, 'second value')
    else:
        cx.check_same(got, value, 'value')
        cx.check(isinstance(got, kind), 'type')
    for other in KINDS:
        if other != name:
            cx.check(r[other] == runtime.Runtime()[other], 'default values')
    cx.check(runtime.Runtime()[name] == default, 'independent runs')


@case('C16', 'any start time and duration of one digit (also negative,'
      ' fractional or zero)', CORE + (M + 'Runtime._resolve',
      M + 'Runtime._compute_sum'), warm=warm)
def derived_defaults(cx):
    t, start = number(cx, 'start')
    d, duration = number(cx, 'duration', ('n', '0', 'n.m'))
    lines = {'simStartTime': t, 'tDel': d}
    given = cx.choice('given', [('simStartTime', 'tDel'), ('simStartTime',),
                                ('tDel',)])
    text = ''
    for k in given:
        text = text + k + '=' + lines[k] + '\n'
    r = runtime.Runtime(config_path=cx.file('run.cfg', text))
    if 'simStartTime' not in given:
        start = 0.0
    if 'tDel' not in given:
        duration = 0.01041666666667
    cx.check_same(r['simStopTime'], start + duration, 'stop time')
    cx.check_same(r['epCalcStartTime'], start, 'time of first calculation')
    cx.check_same(r['idealShockInitTime'], start, 'time of shock')
    cx.check(set(r) == set(runtime.ConfigurationC()), 'every parameter')


@case('C16', 'expressions of up to two parameters or numbers, whose values are'
      ' any digit', CORE + (M + 'Runtime._resolve', M + 'Runtime._compute_sum'),
      warm=warm, shard=('form', 10))
def expressions(cx):
    form, value = cx.choice('form', [
        ('config.tDel', lambda a, b: a),
        ('tDel', lambda a, b: a),
        ('config.tDel + config.lamo', lambda a, b: a + b),
        ('config.tDel - config.lamo', lambda a, b: a - b),
        ('tDel-lamo', lambda a, b: a - b),
        ('tDel * lamo', lambda a, b: a * b),
        ('tDel / lamo', lambda a, b: a / b),
        ('2*tDel', lambda a, b: 2 * a),
        ('tDel + 0', lambda a, b: a),
        ('config.tDel - 2', lambda a, b: a - 2),
    ])
    a, x = number(cx, 'a', ('n', '0'))
    b, y = number(cx, 'b', ('n',))
    if '/' in form:
        cx.assume(y > 0)
    text = 'tDel=' + a + '\nlamo=' + b + '\nrScale=' + form + '\n'
    r = runtime.Runtime(config_path=cx.file('run.cfg', text))
    cx.check_close(r['rScale'], value(x, y), 'value', scale=1)
    cx.check_same(r['tDel'], x, 'first operand')
    cx.check_same(r['lamo'], y, 'second operand')


@case('C16', 'replacing the config file of a run, for any two values',
      (M + 'Runtime.path_to', M + 'Runtime._reset'), warm=warm)
def new_paths(cx):
    a, x = number(cx, 'a', ('n', '0'))
    b, y = number(cx, 'b', ('n',))
    p = cx.file('a.cfg', 'tDel=' + a + '\nsimStartTime=1\n')
    q = cx.file('b.cfg', 'tDel=' + b + '\n')
    r = runtime.Runtime(config_path=p)
    cx.check_same(r['simStopTime'], 1 + x, 'first file')
    r.path_to(config=q)
    cx.check_same(r['tDel'], y, 'second file')
    cx.check_same(r['simStopTime'], y, 'defaults with the second file')
    cx.check(r.path_to('config') == q, 'path')


ALIASES = {
    'lamo': ('lam0', 'lambda0'), 'kperxkpar': ('kper_kpar', 'kper/kpar'),
    'mfpRadialPower': ('mfp_radial_power',),
    'rigidityPower': ('rigidity_power',), 'minimum_energy': ('Emin',),
    'boundaryFunctAmplitude': ('J0',), 'boundaryFunctEcutoff': ('E0',),
}
UNITS = {
    'lamo': 'au', 'kperxkpar': '1', 'mfpRadialPower': '1',
    'rigidityPower': '1', 'minimum_energy': 'MeV', 'flowMag': 'cm/s',
    'idealShockSpeed': 'cm/s', 'tDel': 'day', 'rScale': 'au',
    'mhdBAu': 'G', 'mhdDensityAu': 'cm^-3', 'simStopTime': 'day',
    'boundaryFunctAmplitude': '1 / (cm^2 * s * sr * (MeV/nuc))',
    'boundaryFunctEcutoff': 'MeV', 'eMin': 'MeV/nuc', 'obsTheta': 'rad',
    'mass': 'nucleon', 'charge': 'e', 'dumpFreq': None,
    'numRowsPerFace': None,
}
LOCAL = ('minimum_energy',)


@case('C16', 'any value of one digit of parameters with and without a unit,'
      ' under each of their names', (M + 'Interface.__init__',
      M + 'Interface.__getitem__', M + 'Interface.config'), warm=warm,
      shard=('name', 20))
def interface(cx):
    name = cx.choice('name', sorted(UNITS))
    if name in LOCAL:
        i, text, x = runtime.Interface(), '0', 0.0
    elif name in ('mass', 'charge', 'obsTheta'):
        text, x = number(cx, 'n', ('n', 'n.m'))
        text = '[' + text + ']'
    else:
        text, x = number(cx, 'n', ('n', '0'))
    if name not in LOCAL:
        i = runtime.Interface(cx.file('run.cfg', name + '=' + text + ' ! x'),
                              comments=['!'])
        cx.check(name in i.user, 'named by the user')
        cx.check_same(i.config(name).data, x, "the user's value")
    cx.check(i.config('fluxLimiter', -1) == -1, 'not named by the user')
    for key in (name, *ALIASES.get(name, ())):
        cx.check(key in i, 'known by each name')
        arg = i[key]
        cx.check_same(arg.data, x, 'value by each name')
        cx.check(arg.unit == UNITS[name], 'unit')
    cx.check(i['numEpSteps'] == 30, 'other values')
    cx.raises(KeyError, lambda: i['noSuchParameter'], label='unknown name')


DEPENDENT = {
    'simStartTime': {'simStopTime', 'epCalcStartTime', 'idealShockInitTime'},
    'tDel': {'simStopTime'},
}


@case('C16', 'any value of one digit of one of eight parameters, or none: the'
      ' value and unit of every other parameter that does not depend on it',
      (M + 'Interface.__init__', M + 'Interface.__getitem__'), warm=warm,
      shard=('name', 9))
def other_parameters(cx):
    name = cx.choice('name', [None, 'simStartTime', 'tDel', 'lamo', 'J0', 'eMin',
                              'rScale', 'numEpSteps', 'mhdBAu'])
    if name is None:
        x = cx.real('x', 1, 2)
        i = runtime.Interface()
    else:
        text, x = number(cx, 'n', ('n', '0'))
        key = {'J0': 'boundaryFunctAmplitude'}.get(name, name)
        i = runtime.Interface(cx.file('run.cfg', key + '=' + text))
        cx.check_same(i[name].data if hasattr(i[name], 'data') else i[name],
                      x, "the user's value")
    mine = {k for g in runtime.ALIASES for k in g if name in g} | {name}
    for key, (value, unit) in PARAMETERS.items():
        if key in mine or key in DEPENDENT.get(name, ()):
            continue
        arg = i[key]
        cx.check(bool(arg.data == value), f'default of {key}')
        cx.check(arg.unit is None if unit is None else arg.unit == unit,
                 f'unit of {key}')
    cx.check(set(i) == set(PARAMETERS), 'every parameter')


@case('C16', 'any number of each definition of the EPREM header', (
    M + 'BaseTypesH._compute', M + 'BaseTypesH._evaluate'))
def definitions(cx):
    x = cx.real('x', 1, 1000)
    b = runtime.BaseTypesH()
    au, c, mp, q = 1.495978707e13, 2.99792458e10, 1.6726e-24, 4.80320425e-10
    norm = mp ** 0.5 * c
    length, time, rho = 6.96e10, 1445.87003080685, 1.6726e-16
    for k, v in {
        'AU': au, 'C': c, 'MP': mp, 'Q': q, 'RSUN': length, 'RSAU': length / au,
        'TAU': au / c, 'DAY': au / c / 86400, 'PI': numpy.pi, 'TWO_PI': 2*numpy.pi,
        'EV': 1.6022e-12, 'MEV': 1.6022e-6, 'GEV': 1.6022e-3,
        'MZERO': mp * c * c / 1.6022e-3, 'FCONVERT': 1e30 / c**4,
        'MHD_DENSITY_NORM': 1.0, 'MHD_B_NORM': norm,
        'OM': norm * q * au / (mp * c * c), 'MAS_LENGTH_NORM': length,
        'MAS_TIME_NORM': time, 'MAS_RHO_NORM': rho,
        'MAS_TIME_CONVERT': time / 86400, 'MAS_V_CONVERT': length / time / c,
        'MAS_RHO_CONVERT': rho / mp,
        'MAS_B_CONVERT': (4 * numpy.pi * rho) ** 0.5 * length / time / norm,
        'BADINT': 2147483647, 'BADVALUE': 1e33, 'VERYSMALL': 1e-33,
        'T': 1, 'F': 0, 'THRESH': 0.025, 'VOLT': 0.0033333,
        'MHD_DEFAULT': 0, 'MHD_ENLIL': 1, 'MHD_LFMH': 2, 'MHD_BATSRUS': 3,
        'MHD_MAS': 4, 'NUM_MPI_BOUNDARY_FLDS': 2, 'MAX_STRING_SIZE': 240,
    }.items():
        cx.check_close(x * b[k], x * v, k)


@case('C16', 'any digits in the definitions of a header and a source file, with'
      ' and without spaces', (M + 'BaseTypeDef.match', M + 'BaseTypeDef.parse',
      M + 'FunctionCall.match', M + 'FunctionCall.parse',
      M + 'FunctionCall._normalize', M + 'VariableDefinition.match',
      M + 'VariableDefinition.parse', M + 'ConfigurationC.load_from_source',
      M + 'BaseTypesH._compute', M + 'BaseTypesH._evaluate'), warm=warm,
      shard=('style', 3))
def source_files(cx):
    s = cx.choice('style', ['', ' ', '\t'])
    a, x = number(cx, 'a', ('n', 'n.m'))
    b, y = number(cx, 'b', ('n',))
    header = cx.file('baseTypes.h', (
        '#ifndef BASETYPES_H\n#define BASETYPES_H\n#define T 1\n#define AU '
        + a + s + '\n#define' + ' C ' + s + b + '\n/* #define MP 3 */\n'
        '#define TAU' + ' ( AU * C )\n#define MHD_MAS' + ' 4\n'))
    source = cx.file('configuration.c', (
        '  config.tDel' + s + '=' + s + 'readDouble("tDel",' + s + a
        + ', VERYSMALL, BADVALUE);\n'
        'config.dumpFreq = readInt("dumpFreq", ' + b + ', 0, 1000);\n'
        'config.rScale = readDouble("rScale", TAU, 0.0, 1.0);\n'
        'config.lam = readDouble("lamo", config.tDel, 0.0, 1.0);\n'
        'config.warningsFile = (char*)readString("warningsFile", "w.txt");\n'
        'Scalar_t defaultMass[1] = {' + b + '};\n'
        'config.mass = readDoubleArray("mass", config.numSpecies, '
        'defaultMass);\n'
        'int x = readInteger("other", 3);\n'))
    where = os.path.dirname(source)
    cx.check(os.path.dirname(header) == where, 'same directory')
    h = runtime.BaseTypesH(where)
    cx.check(set(h) == {'T', 'AU', 'C', 'TAU', 'MHD_MAS'}, 'constants')
    cx.check_same(h['AU'], x, 'constant')
    cx.check_same(h['C'], y, 'another constant')
    cx.check_same(h['TAU'], x * y, 'product of constants')
    cx.check(h['T'] == 1 and h['MHD_MAS'] == 4, 'integer constants')
    c = runtime.ConfigurationC(where)
    cx.check(set(c) == {'tDel', 'dumpFreq', 'rScale', 'lam', 'warningsFile',
                        'mass'}, 'parameters')
    cx.check(c['lam']['alias'] == 'lamo', 'alias')
    cx.check('alias' not in c['tDel'], 'no alias')
    cx.check(c['tDel']['type'] is float and c['dumpFreq']['type'] is int
             and c['warningsFile']['type'] is str and c['mass']['type'] is list,
             'types')
    cx.check(c['tDel']['minimum'] == 'VERYSMALL', 'minimum')
    cx.check(c['dumpFreq']['maximum'] == '1000', 'maximum')
    r = runtime.Runtime(where)
    cx.check_same(r['tDel'], x, 'default value')
    cx.check_same(r['dumpFreq'], y, 'integer default value')
    cx.check_same(r['rScale'], x * y, 'default value from constants')
    cx.check_same(r['lam'], x, 'default value from a parameter')
    cx.check(r['warningsFile'] == 'w.txt', 'string')
    cx.check(len(r['mass']) == 1, 'number of values')
    cx.check_same(r['mass'][0], y, 'default value of a list')
    cx.raises(KeyError, lambda: r['flowMag'], label='unknown parameter')


@case('C16', 'two config files with any values of one digit for one or two'
      ' parameters', (M + '_build_arg_dict', M + '_get_relative_paths',
      M + '_format_arg', M + 'ConfigFile.compare', M + 'ConfigFile.diff'),
      warm=warm)
def comparisons(cx):
    a, x = number(cx, 'a', ('n',))
    b, y = number(cx, 'b', ('n',))
    p = cx.file('a.cfg', 'dumpFreq=' + a + '\nnumEpSteps=1\n')
    q = cx.file('b.cfg', 'dumpFreq=' + b + '\nshockSolver=1\n')
    f, g = runtime.ConfigFile(p), runtime.ConfigFile(q)
    d = f.diff(g)['keys']
    cx.check(d[0] == {'numEpSteps'} and d[1] == {'shockSolver'},
             'names in one file only')
    c = f.compare(q)
    cx.check(c['numEpSteps'] == ('1', None), 'value in the first file')
    cx.check(c['shockSolver'] == (None, '1'), 'value in the second file')
    if cx.decide(x != y):
        u, v = c['dumpFreq']
        cx.check(u == a, 'value of the first file')
        cx.check(v == b, 'value of the second file')
