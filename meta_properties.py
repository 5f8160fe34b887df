def define(prop, not_applicable):
    prop(
        'C01', 'Symbolic expressions obey the algebra of monomials',
        'Multiplying, dividing and raising symbolic expressions (given as '
        'expression objects, strings, or lists) yields exactly the '
        'coefficient and exponents of the corresponding rational monomial: '
        'exponents of equal bases add, subtract or scale, coefficients '
        'multiply, divide or are raised, and no factor is lost or invented. '
        'The usual laws follow ((x*y)/y = x, x/x = 1, x*y = y*x), single '
        'terms obey the same rules and evaluate to c*v^n, and no operation '
        'changes its operands.',
        'all rational coefficients and exponents within the stated ranges, '
        'for expressions of up to three bases',
        'Tests compare about a dozen literal strings; cancellation, zero, '
        'negative and fractional exponents are reached by single examples.',
        ['symbolic.py', 'algebraic.py'],
        [('term collection and cancellation', SRC + 'symbolic.py: reduce'),
         ('operators of expressions and terms',
          SRC + 'symbolic.py: Expression, Term, Operand')],
    )
    prop(
        'C02', 'Symbolic expressions have one normal form that reads back',
        'An expression keeps each base at most once, drops bases whose '
        'exponent is zero and never depends on the order or grouping in '
        'which its factors were given; printing it (also a single term) and '
        'reading the text back gives an equal expression with the same '
        'coefficient and exponents, and the tex style shows the same '
        'coefficient and exponents. Indexing returns the n-th term for '
        '-len <= n < len and raises IndexError for every other integer.',
        'all rational exponents and coefficients within the stated ranges; '
        'all orders and groupings of three factors; all indices',
        'Tests print a few fixed expressions; they do not quantify over '
        'exponents or coefficients.',
        ['symbolic.py'],
        [('normalisation', SRC + 'symbolic.py: reduce, Expression.__init__'),
         ('formatting', SRC + 'symbolic.py: Operand.format, Term.format')],
    )
    prop(
        'C03', 'Symbolic equality is semantic and agrees with hashing',
        'Two terms or expressions compare equal exactly when they denote the '
        'same coefficient and the same exponent for every base, however '
        'they were built (objects, strings, lists, any order of factors); '
        'equal objects have equal hashes. The difference of two expressions '
        'contains exactly the terms of one that the other lacks.',
        'all rational coefficients and exponents within the stated ranges',
        'Tests assert equality of fixed examples and inequality of fewer.',
        ['symbolic.py'],
        [('equality and hash', SRC + 'symbolic.py: Term.__eq__, '
          'Expression.__eq__, __hash__'),
         ('difference', SRC + 'symbolic.py: Expression.difference')],
    )
    prop(
        'C04', 'The expression parser implements its documented grammar',
        'For every string within the bounds, parsing either yields exactly '
        'the monomial that the documented grammar assigns to it (names, '
        'integer, decimal, fractional and scientific constants and '
        'exponents, "*" "/" and juxtaposition from left to right, nested '
        'groups with powers, sqrt, configurable tokens) or raises a parsing '
        'error when the text is malformed; it never silently drops or '
        'misreads a factor, digit, sign or power.',
        'all strings up to the stated length over the stated alphabets and '
        'all instances of the stated templates',
        'Tests parse a list of literal strings; a digit lost in a '
        'denominator or a sign lost in 1e-5 went unnoticed.',
        ['symbolic.py'],
        [('tokenising and precedence', SRC + 'symbolic.py: Parser'),
         ('operand recognition', SRC + 'symbolic.py: OperandFactory')],
    )
    prop(
        'C05', 'Unit conversion factors are the physical ones',
        'Whenever goats converts between two units, single or composite, '
        'prefixed or not, by any entry point (conversion, Conversion, '
        'Unit // Unit, Quantity.convert), the factor equals the ratio of '
        'their physical values (SI definitions, the constants goats '
        'documents), raised to whatever exponents occur; converting there '
        'and back multiplies by one. Units of different dimension are '
        'rejected with UnitConversionError (None when not strict), never '
        'given a factor. No earlier conversion or unit construction changes '
        'a later result.',
        'all rational exponents within the stated ranges on the stated '
        'catalogue of units, prefixes and definitions; all sequences of two '
        'conversions of a pool',
        'Tests list some fifty literal conversions; wrong factors of C, S, '
        'H, ohm, lost prefixes and history dependence went unnoticed.',
        ['metric.py', 'iterables.py'],
        [('search and composition of factors', SRC + 'metric.py: Conversion'),
         ('tables', SRC + 'metric.py: _CONVERSIONS, _units, _QUANTITIES'),
         ('entry points', SRC + 'metric.py: conversion, Unit.__floordiv__, '
          '_Converter')],
        over=('inputs', 'histories'),
        state=[('Conversion._instances', 'factors computed so far',
                SRC + 'metric.py: Conversion.__new__')],
    )
    prop(
        'C06', 'Units form an algebra with physical equality and dimensions',
        'Products, ratios and powers of units denote the product, ratio or '
        'power of the physical units, in magnitude and dimension, and leave '
        'their operands unchanged. Two units are equal exactly if they '
        'denote the same physical unit (also N and kg m / s^2) and '
        'consistent (u | v) exactly if they have one dimension in some '
        'system or a defined conversion. dimensions, norm, quantity tables '
        'and System.get_unit give the dimension and canonical unit of any '
        'composite unit. All spellings of a unit are one instance, whatever '
        'was built before.',
        'all rational exponents within the stated ranges on the stated '
        'catalogue of units; all sequences of two constructions',
        'Tests use a few literal units; they cannot quantify over exponents, '
        'pairs of units and construction histories.',
        ['metric.py', 'symbolic.py', 'aliased.py'],
        [('algebra and equality', SRC + 'metric.py: Unit'),
         ('dimensions', SRC + 'metric.py: Dimension, Dimensions, NamedUnit'),
         ('systems', SRC + 'metric.py: System, Quantity, _Property')],
        over=('inputs', 'histories'),
        state=[('_UnitMeta._instances', 'units built so far, by alias',
                SRC + 'metric.py: _UnitMeta.__call__')],
    )
    prop(
        'C07', 'Changing the unit of a quantity keeps the physical value',
        "For every kind of quantity (measurable Quantity and Scalar; physical "
        "Scalar, Vector and Array; variable Quantity), q[unit] has the given "
        "unit, the values of q times the physical conversion factor, and the "
        "same name, dimensions and shape; q itself is unchanged; changing back "
        "restores the values. The unit may be text, a unit object or the name "
        "of a metric system in any capitalisation (its canonical unit). A "
        "unit of another dimension is rejected with ValueError. This holds "
        "after any sequence of earlier unit changes, copies, subsets and "
        "loads.",
        'all real values, all non-integral rational exponents within the '
        'stated range, all sequences of three operations',
        'Tests convert literal values once; copies of rescaled arrays, '
        'exponents and histories went wrong unnoticed.',
        ['measurable.py', 'physical.py', 'variable.py', 'metric.py'],
        [('unit change', SRC + 'measurable.py: Quantity.__getitem__, '
          'apply_unit'),
         ('deferred scale', SRC + 'physical.py: Array.apply_unit, _array'),
         ('variables', SRC + 'variable.py: Quantity._update_unit')],
        over=('inputs', 'histories'),
        state=[('Array._scale, _full_array', 'deferred scale and loaded data',
                SRC + 'physical.py: Array')],
    )
    prop(
        'C08', 'Arithmetic of quantities computes both values and units',
        'For every kind of quantity: sums and differences have the sums of '
        'the values and the common unit, and are rejected for different '
        'units or plain numbers; products and ratios have the product or '
        'ratio of the values and of the units; a number scales the values '
        'and keeps the unit; a power raises values and unit; c / q and '
        'q ** q are rejected. Ordering compares values of equal units and '
        'rejects different units; == and != are each other\'s negation and '
        'need equal values and units; float, int, round, floor, ceil, trunc '
        'act on the value. In-place operators give the same result. No '
        'operation changes its operands.',
        'all real values of each kind of quantity, on the stated units and '
        'exponents',
        'Tests evaluate a few literal values per operator; in-place '
        'operators, comparisons and mismatched units went unnoticed.',
        ['measurable.py', 'algebraic.py', 'metadata.py', 'physical.py',
         'variable.py'],
        [('operators', SRC + 'measurable.py: Quantified.implement'),
         ('metadata of results', SRC + 'metadata.py: Operation, '
          'OperatorFactory'),
         ('numpy interface', SRC + 'physical.py: Array.__array_ufunc__'),
         ('variables', SRC + 'variable.py: Array, Quantity')],
    )
    prop(
        'C09', 'Subscripts and operations on arrays respect their dimensions',
        'Subscripting a physical Array or a variable with integers, slices, '
        'an ellipsis or lists selects exactly the elements that the '
        'subscripts name along each axis, whether the data are an array, a '
        'list or a file-like object, rescaled or not, loaded before or not; '
        'shape and ndim describe the result; unit, name and dimensions are '
        'kept. Products and ratios of variables pair values along dimensions '
        'of the same name and span the others; dimensions of conflicting '
        'sizes, and sums over different dimensions, are rejected. mean and '
        'squeeze act on the axis they are given.',
        'all real values and all stated combinations of subscripts on '
        'arrays of up to three axes',
        'Tests use literal arrays and subscripts; indices after an '
        'ellipsis, slices beside lists and truncated products went '
        'unnoticed.',
        ['physical.py', 'variable.py', 'metadata.py'],
        [('subscripts', SRC + 'physical.py: Array._subscript_standard, '
          '_subscript_custom; ' + SRC + 'variable.py: '
          '_normalize_indices'),
         ('extended arithmetic', SRC + 'variable.py: Quantity, '
          '_ufunc_hook'),
         ('dimensions', SRC + 'metadata.py: Dimensions')],
    )
    prop(
        'C10', 'Measuring returns the given values and their unit',
        'measure() and parse_measurable() read numbers, sequences of numbers '
        'with or without a unit, pairs of value and unit, redundantly nested '
        'lists and measurable objects; the result has exactly the given '
        'values in the given order and the given unit (1 if none is given). '
        'Mixed units, missing values and malformed nesting are rejected '
        'with an error, never dropped or merged. Indexing, iterating and '
        'converting the measurement keeps pairing values with the unit, and '
        'scalar() gives a scalar with the same value and unit.',
        'all real values for sequences of up to three values, six units, and '
        'the stated nestings',
        'Tests measure a fixed list of literal inputs; lost values and units '
        'of nested pairs went unnoticed.',
        ['measurable.py', 'physical.py'],
        [('parsing', SRC + 'measurable.py: parse_measurable, measure, '
          'ismeasurable'),
         ('the result', SRC + 'measurable.py: Measurement'),
         ('scalars', SRC + 'physical.py: scalar')],
    )
    prop(
        'C11', 'All aliases of a key always refer to one value',
        'In an aliased mapping every alias of a group retrieves the same '
        'value, the groups are disjoint, and length, iteration, keys, values, '
        'items, flat and membership all describe the same set of aliases, '
        'whichever way the mapping was built and after every sequence of '
        'updates (assigning through any alias updates the whole group, '
        'deleting removes it, an alias in use elsewhere is rejected and '
        'nothing changes). Copies are independent; equality compares keys '
        'and values; groups behave as sets with equal hashes for equal '
        'groups; merging groups yields their connected components; name '
        'maps send every alias to its name and invert exactly.',
        'all keys (any equalities among them), up to three groups of three '
        'keys, and all sequences of two (thorough: three) updates',
        'Tests use a fixed dictionary of literals and single updates.',
        ['aliased.py'],
        [('groups', SRC + 'aliased.py: Group, Groups'),
         ('mappings', SRC + 'aliased.py: Mapping, MutableMapping'),
         ('names', SRC + 'aliased.py: NameMap')],
    )
    prop(
        'C12', 'Searches find the nearest value; interpolation is linear',
        'find_nearest() returns a valid index, the value at that index, and '
        'no value of the collection is nearer to the target; with a bound, '
        'the value satisfies the bound whenever some value does and is the '
        'nearest of those that do, in any order of the values and for any '
        'number of axes. get_bounding_indices() brackets the target between '
        'adjacent elements of ascending arrays, along the requested axis. '
        'interpolation.apply() reproduces the data at reference values and '
        'is linear between adjacent ones, for every row of the reference and '
        'every element of the remaining axes, and keeps the shape of the '
        'data apart from the interpolated axis.',
        'all real values, targets and orders, for up to four values or two '
        'rows of three, within the range of the reference',
        'Tests sample one array and a few targets; descending data, exact '
        'hits in one row and single columns went unnoticed.',
        ['numerical.py', 'interpolation.py'],
        [('search', SRC + 'numerical.py: find_nearest, '
          'get_bounding_indices, find_1d_indices'),
         ('interpolation', SRC + 'interpolation.py: apply, '
          '_apply_interp1d, Restriction, restrict_coordinate')],
    )
    prop(
        'C13', 'Axis indices are the positions of the requested values',
        'Indexing an axis by measured values selects, for each value, the '
        'position of the nearest grid value after converting the value from '
        'its own unit to the unit of the axis, keeps the requested values, '
        'and rejects values whose unit does not measure the axis. Integers '
        'select themselves, slices select what they select of the axis, no '
        'argument selects the entire axis, and species select by symbol. '
        'Energies are looked up in the grid of the requested species. '
        'Converting an index to another unit rescales its values and keeps '
        'its positions.',
        'all grids and targets of any size for axes of up to four elements '
        'and up to three requested values, in the units of the axes',
        'Tests index one dataset with a few values; slices, repeated units '
        'and single-energy datasets went unnoticed.',
        ['axis.py', 'index.py', '../eprem/__init__.py'],
        [('indexing', SRC + 'axis.py: Quantity.index, Indexer'),
         ('index arrays', SRC + 'index.py: Quantity, Data'),
         ('EPREM axes', 'src/goats/eprem/__init__.py: Axes, Indexers')],
    )
    prop(
        'C14', 'Observations are the data at the requested coordinates',
        'observer[name].observe(**constraints) has, for every requested '
        'combination of axis values, the value of the variable there: the '
        'stored value at requested indices, and the linear interpolant '
        'between neighbouring grid points for values (times, radii, '
        'energies, pitch-angle cosines, in any consistent unit) that are '
        'not on the grid, for every species and at every time. Expressions '
        'of several variables combine the observed arrays and units. '
        'Observations report the unit, the dimensions and the axis values '
        'that they have, one observation does not affect the next, two '
        'observations of a quantity are equal exactly when their values, '
        'units and axes are, and '
        'unknown names raise an error.',
        'all data, grids and targets of any size within the grid, for '
        'datasets of two to three times, shells and energies, two species',
        'Tests need data files and sample a few constraints; combinations '
        'of interpolated and indexed axes went unnoticed.',
        ['observing.py', 'observer.py', 'observed.py',
         '../eprem/__init__.py'],
        [('observing', 'src/goats/eprem/__init__.py: Context'),
         ('observed quantities', SRC + 'observing.py: Quantity, Interface'),
         ('observations', SRC + 'observed.py: Quantity')],
    )
    prop(
        'C15', 'Computed quantities follow their physical definitions',
        'Every quantity that goats computes from the variables of a dataset '
        '(Cartesian coordinates, field magnitudes, parallel and '
        'perpendicular velocities, flow angle, divergence, density ratio, '
        'rigidity, mean free path, acceleration rate, energy density, '
        'average energy, isotropic distribution, flux, fluence, integral '
        'flux) equals its definition for every input, for each species with '
        'its own mass, charge and energies, and has the dimensions and unit '
        'that follow from its definition. The physical value is the same '
        'whether the observer uses the MKS or the CGS system.',
        'all values of the variables of any size, for up to three shells, '
        'times or energies and two species',
        'Tests compare the output with itself on one data file; the flow '
        'angle, the rigidity of several species and CGS observers were '
        'wrong.',
        ['computed.py', '../eprem/__init__.py'],
        [('functions', SRC + 'computed.py: registry'),
         ('dependencies', SRC + 'computed.py: Method, Quantity'),
         ('EPREM functions', 'src/goats/eprem/__init__.py: Functions, '
          'Context.compute')],
    )
    prop(
        'C16', 'Run parameters are those of the files that define the run',
        'A config file defines, for every line "name = value" (with any '
        'spaces and comments), the last value of each name; lines that are '
        'not assignments are errors. A run parameter has the value that the '
        'user gave in the config file (also zero, also negative), otherwise '
        'its default; defaults that are expressions of other parameters use '
        'the values of those parameters in this run, and values may be sums, '
        'differences and products of parameters and numbers. Replacing the '
        'config file replaces the values. The interface gives each '
        'parameter its documented unit, the definitions in the EPREM source '
        'files are read literally, and comparing runs reports exactly the '
        'parameters that differ.',
        'all texts of up to four (thorough: six) characters of the config '
        'syntax, and all one-digit values (negative, fractional, with '
        'exponents) of the parameters; expressions of two terms',
        'Tests read one file; spaces, comments, zeros and empty '
        'differences went unnoticed.',
        ['../eprem/runtime.py', 'iotools.py'],
        [('config files', 'src/goats/eprem/runtime.py: ConfigFile'),
         ('defaults', 'src/goats/eprem/runtime.py: Runtime, ConfigParser'),
         ('interface', 'src/goats/eprem/runtime.py: Interface, compare')],
    )
    prop(
        'C17', 'Collections keep their contents',
        'unique() keeps the first of each repeated item in order, unwrap() '
        'and wrapping return the same items, transposing twice returns the '
        'list, numbers in strings are read as those numbers. A table '
        'request returns the only entry that matches all given values, is '
        'ambiguous exactly when several match, and fails when none does. A '
        'bijection and its inverse undo each other and exist only for '
        'one-to-one mappings. Connections have the same weight in both '
        'directions. A registry returns every registered object by its '
        'name and never replaces one silently. A guard substitutes values '
        'for exactly the exceptions that it knows. distribute() pairs '
        'values with collections, and casting text to a number returns '
        'that number or fails.',
        'all contents of collections of up to four items (including every '
        'pattern of equal items), all texts of up to three characters',
        'Tests use a few collections with distinct items.',
        ['iterables.py', 'numerical.py'],
        [('lists', SRC + 'iterables.py: unique, unwrap, transpose_list, '
          'string_to_list, distribute'),
         ('tables', SRC + 'iterables.py: Table, Bijection, Connections, '
          'ObjectRegistry, Guard'),
         ('numbers', SRC + 'numerical.py: cast')],
    )
    prop(
        'C18', 'Misspelled names lead to the names they resemble',
        'A known name needs no suggestion. For an unknown name, the '
        'suggestions are exactly the known words that are one deletion, '
        'insertion, replacement or transposition of letters away or, if '
        'there are none, those that are two edits away; every suggestion '
        'is a known word. An observer raises a spelling error for an '
        'unknown name that resembles the name of one of its current '
        'quantities, every time, and a KeyError otherwise.',
        'all known words of up to four letters (two at a time, over all '
        '52 letters), and names of up to three letters with every pattern '
        'of equal letters; two edits: words over three letters',
        'Tests check a few misspellings of a few words; insertions at the '
        'end and repeated requests went unnoticed.',
        ['spelling.py', 'observer.py'],
        [('suggestions', SRC + 'spelling.py: SpellChecker'),
         ('observers', SRC + 'observer.py: Interface._check_spelling')],
    )
    prop(
        'C19', 'Species and constants have their physical values',
        'The symbol of a mass and a charge is that of an element whose mass '
        'number is the rounded mass, followed by one sign per elementary '
        'charge; masses of no element are errors. A species given by its '
        'symbol has the mass of the element and the charge of its signs, a '
        'species given by mass and charge has those and the symbol of '
        'both, in nucleons and elementary charges. Physical constants have '
        'their accepted values and units, and are the same physical '
        'quantities in MKS and in CGS.',
        'all masses up to 24 (thorough: 280) nucleons, charges from -3 to '
        '2, up to two species at a time; every element; every constant',
        'Tests sample a few species and never compare MKS and CGS values.',
        ['fundamental.py', 'plasma.py', 'physical.py'],
        [('elements', SRC + 'fundamental.py: elements, get_mass_indices'),
         ('species', SRC + 'plasma.py: Species'),
         ('constants', SRC + 'physical.py: Constants')],
    )
    prop(
        'C20', 'Operations on metadata follow the operations on data',
        'Products, quotients and powers have the distinct axes of their '
        'operands in order, sums exist only for equal axes, and dimensions '
        'are equal exactly when they list the same axes in the same order. '
        'Parameters merge likewise; equal ones have equal hashes. '
        'The name of a result combines every alias of one operand with '
        'every alias of the other; names are equal when their aliases are. '
        'An operation supports suppressed types never, then supported '
        'types and their subtypes, then its own type; copies of operations '
        'are equal and independent. Operators apply the operation to each '
        'attribute, and attributes are consistent exactly when all given '
        'values are equal.',
        'all names of up to two axes or aliases over three or four '
        'letters; all combinations of three rules of three types; all '
        'attribute values of up to three operands',
        'Tests use a few names and types; orders and repetitions of axes '
        'went unnoticed.',
        ['metadata.py', 'utilities.py'],
        [('dimensions and names', SRC + 'metadata.py: Dimensions, Name'),
         ('operations', SRC + 'metadata.py: Operation, Operator, Operands, '
          'OperatorFactory'),
         ('attributes', SRC + 'utilities.py: getattrval, setattrval, '
          'equal_attrs')],
    )
    prop(
        'C21', 'Parameters keep their values, and read-only files their '
        'content',
        'Assumptions and arguments have the given values in the given '
        'unit, one by one and together; converting an assumption scales '
        'every value; single values cast to numbers and several values do '
        'not; parameters without unit are options. A read-only path '
        'accepts every mode that reads and no mode that writes, and never '
        'changes its file. Text files have the lines of the file, comments '
        'end the text at the first comment mark, searches return the first '
        'existing file in the given order, and there is one dataset '
        'instance for each file, however its path is written.',
        'all values of up to three numbers in three units; all modes of up '
        'to three characters; all texts of up to five characters; files in '
        'up to three directories',
        'Tests build a few arguments; modes such as "r+", units as objects '
        'and relative paths went unnoticed.',
        ['operational.py', 'constant.py', 'iotools.py'],
        [('parameters', SRC + 'constant.py: Assumption, Option, Interface'),
         ('arguments', SRC + 'operational.py: Argument'),
         ('files', SRC + 'iotools.py: ReadOnlyPath, TextFile, PathSet, '
          'search, find_file_by_template')],
    )


SRC = 'src/goats/core/'
