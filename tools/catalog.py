#!/usr/bin/env python3
"""
The catalogue of properties: writes properties.jsonl and MANIFEST.json.
Run it after editing; a property is claimed when props/<id>.py exists.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'nimble/core/data/'
CATALOG = []


def prop(id, title, statement, over, text, why, files, mechanism,
         technique=None, note=None, observe=None, na=None):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over,
                        text=text, why=why, files=files, mech=mechanism,
                        technique=technique, note=note, observe=observe,
                        na=na))


BACK = [D + 'list.py', D + 'matrix.py', D + 'sparse.py', D + 'dataframe.py']
AXIS = [D + 'axis.py', D + 'points.py', D + 'features.py'] + \
    [D + x + 'Axis.py' for x in ('list', 'matrix', 'sparse', 'dataframe')]

prop('C01', 'Structural operations act as on a named table',
     'For each of the four data types, any sequence of copy, extract, delete, retain, count, permute, sort, insert, append, replace, repeat, transpose, item assignment, renaming and type conversion leaves the object with exactly the shape, values and point and feature names that a plain table of rows with optional names would have after the same operations. What is handed back by copy and extract has exactly the selected points or features in the order asked for.',
     ['histories', 'inputs'],
     'every sequence of structural operations with every form of selection (indices, names, ranges, functions, number, randomize off), over tables of any shape (empty axes included), any content and partial names, in every data type',
     'Unit tests check single operations on fixed small tables and one history step; the internal representations (sparse sort flags, cached name indices, dataframe labels) depend on the operations before.',
     [D + 'base.py'] + AXIS + BACK,
     [('structural back end of every axis', D + 'axis.py:_structuralBackend_implementation'),
      ('per type implementations', D + 'listAxis.py, matrixAxis.py, sparseAxis.py, dataframeAxis.py')],
     'stateful model-based property testing (Hypothesis), oracle: list-of-rows reference model')

prop('C02', 'Names and indices stay one bijection',
     'After any history of operations, getNames, getName, getNames, getIndex, getIndices, hasName and name-based access of an axis all describe one and the same injective partial mapping between names and positions: each named point or feature is found at the position that carries its values. Copies and views of an object have their own mapping: renaming one never changes the other, and a name given twice is refused.',
     ['histories', 'inputs'],
     'every interleaving of setNames (list, dict, None, single with oldIdentifiers), extraction, sorting, insertion, copying, viewing and name queries, for partially named axes of every data type',
     'Names are cached lazily in two directions (list and dict); a stale cache only shows after particular interleavings of queries and changes that tests do not enumerate.',
     [D + 'axis.py', D + 'base.py', D + 'views.py', D + '_dataHelpers.py'],
     [('names list and names inverse', D + 'axis.py:_setNamesFromDict/_setNamesFromList'),
      ('lazy name creation', D + 'axis.py:names/namesInverse')],
     'stateful model-based property testing (Hypothesis), oracle: ordered partial injection')

prop('C03', 'Objects never share state with inputs or results',
     'Changing an object in place never changes the raw data it was created from, any object it was copied from or that was copied from it, or any object passed as an argument to, or returned from, an operation. Operations documented to return a new object leave the calling object and every argument exactly as they were.',
     ['histories', 'inputs'],
     'every public operation that returns an object or takes one, followed by arbitrary in-place changes to any of the objects involved, over all pairs of data types',
     'Aliasing only shows when a later, different operation mutates a shared buffer; unit tests compare results directly after a call.',
     [D + 'base.py', 'nimble/core/create.py', 'nimble/core/_createHelpers.py'] + BACK + [D + 'axis.py'],
     [('copying on creation', 'nimble/core/_createHelpers.py:initDataObject'),
      ('copy implementations', D + 'base.py:_copy_outputAs / copy')],
     'property-based testing (Hypothesis) of pairs of operations with full before/after snapshots')

prop('C04', 'Views are faithful, read-only windows',
     'A view of any contiguous range of points and features (also a view of a view, a point, feature or element view) shows exactly the values and names of that range and answers every query exactly as an independent object holding the same table would. No operation called on a view changes the view or the object it looks at, and modifying operations are refused.',
     ['inputs', 'histories'],
     'every range, nesting, data type and every query operation, and every modifying operation attempted through a view',
     'Tests exercise views of a few fixed ranges; sparse views and offsets combine with each query differently.',
     [D + 'views.py', D + 'base.py'] + BACK,
     [('view classes', D + 'views.py:BaseView'), ('per type views', D + 'sparse.py:SparseView and others')],
     'differential property testing (Hypothesis): view versus independent object')

prop('C05', 'A refused operation changes nothing',
     'When an operation on a data object raises an exception, whether the arguments are invalid, name collisions would result, or a user function raises part way, the object and every argument hold exactly the values, names and shape they held before the call.',
     ['fault_sequences', 'inputs'],
     'every in-place operation with invalid arguments of every kind and user callbacks that raise at the k-th call, on every data type',
     'Tests assert that an exception is raised; they rarely look at the object afterwards, and never at every point where a callback can fail.',
     [D + 'base.py', D + 'axis.py'] + BACK,
     [('validation before mutation', D + 'axis.py, base.py')],
     'fault-injecting property testing (Hypothesis), oracle: before/after snapshot')

prop('C06', 'Creation keeps values and names for every raw form',
     'nimble.data gives an object with the same values, shape, point names and feature names for the same table whatever raw form it comes in (nested lists, tuples, dicts, lists of dicts, numpy arrays, pandas objects, every scipy sparse format, iterators, nimble objects) and whatever return type is asked for. Names given explicitly, taken from the first row or column, or carried by the source, end up on the axis positions whose values they name.',
     ['inputs', 'configurations'],
     'every table, raw form, return type and combination of pointNames, featureNames, rowsArePoints, treatAsMissing/replaceMissingWith, convertToType and keep arguments',
     'The product of raw forms, return types and options is far larger than the fixed examples in the tests.',
     ['nimble/core/create.py', 'nimble/core/_createHelpers.py'],
     [('raw data dispatch', 'nimble/core/_createHelpers.py:initDataObject'),
      ('names from raw data', 'nimble/core/_createHelpers.py:extractNames*')],
     'differential property testing (Hypothesis) against a table model')

prop('C07', 'Conversions between types are lossless',
     'Converting an object to any other data type, or copying it to a raw form (python list, numpy array or matrix, scipy csr/csc/coo, pandas, list of dicts, dict of lists), and back gives the same values in the same places, and all names where the form carries them; rowsArePoints=False gives the transpose. Copying to a form never changes the source.',
     ['inputs', 'configurations'],
     'every table, data type and output form, with and without rowsArePoints and outputAs1D',
     'Tests use a few fixed tables; values like zeros, missing values, booleans and unnamed axes interact with each form.',
     [D + 'base.py'] + BACK,
     [('copy dispatch', D + 'base.py:copy'), ('per type copies', 'each _copy_implementation')],
     'round-trip and differential property testing (Hypothesis)')

prop('C08', 'Saving to a file and loading gives the same table',
     'An object saved with save (pickle) loads as an identical object, and an object written with writeFile to CSV, MTX or HDF5 and loaded again with nimble.data has the same values and, where written, the same point and feature names. This holds for every content the format can express, including names and strings with commas, quotes, spaces and newlines.',
     ['inputs', 'configurations'],
     'every table, data type (views included), file format and includeNames setting',
     'Tests write small tables with plain names; quoting and number formatting fail on specific characters.',
     [D + 'base.py', 'nimble/core/_createHelpers.py'] + BACK,
     [('writers', D + 'base.py:writeFile, *_writeFileCSV_implementation'),
      ('loaders', 'nimble/core/_createHelpers.py:_loadcsvUsingPython')],
     'round-trip property testing (Hypothesis)')

prop('C09', 'CSV loading options select and clean exactly as stated',
     'Loading delimited text gives the table a direct parse of the text describes: keepPoints and keepFeatures load exactly the named or indexed points and features in the order given, as if everything had been loaded and then selected; the separator, header and point-name settings, treatAsMissing, ignoreNonNumericalFeatures and convertToType act as documented and independently of each other.',
     ['inputs', 'configurations'],
     'every delimited text (quoting, blank lines, comments, missing cells) and every combination of loading options and return types',
     'The options interact inside one streaming loader; tests cover pairs of options on fixed files.',
     ['nimble/core/create.py', 'nimble/core/_createHelpers.py'],
     [('streaming CSV loader', 'nimble/core/_createHelpers.py:_loadcsvUsingPython'),
      ('header detection', 'nimble/core/_createHelpers.py:_checkCSV_for_Names')],
     'metamorphic property testing (Hypothesis): options at load time versus selection after loading, reference parse')

prop('C10', 'Elementwise operators agree with arithmetic on elements',
     'For each arithmetic, comparison, logical and in-place operator, and any operands (objects of any types and equal shape, or a scalar on either side), the result holds at each position the value Python or numpy arithmetic gives for the elements there, keeps the names as documented and does not change the operands. An in-place operator gives the same values as the binary one.',
     ['inputs', 'configurations'],
     'every operator, pair of data types, content including zeros, negative numbers and missing values, scalar and reflected operand, naming',
     'Zero-preserving shortcuts for sparse data differ per operator and operand pattern; tests use a few patterns.',
     [D + 'base.py', D + 'sparse.py', D + 'matrix.py', D + 'list.py', D + 'dataframe.py', D + '_dataHelpers.py'],
     [('operator dispatch', D + 'base.py:_genericArithmeticBinary*'),
      ('sparse shortcuts', D + 'sparse.py:_genericMul*, _add, _sub, ...')],
     'differential property testing (Hypothesis) against numpy elementwise arithmetic')

prop('C11', 'Broadcasting and linear algebra agree with numpy',
     'Stretched points and features broadcast as numpy arrays of the same shape do for every operator, matrix multiplication and powers agree with numpy for every pair of types, and inverse, pseudoInverse, solve and leastSquaresSolution satisfy the equations that define them. Names of the results are those documented for the operation.',
     ['inputs', 'configurations'],
     'every operator and pairing of stretched and plain objects of each type, and random well-conditioned or singular systems',
     'Tests check fixed matrices; the type dispatch has a separate path for each pair.',
     [D + 'stretch.py', D + 'base.py', 'nimble/calculate/linalg.py'],
     [('stretch', D + 'stretch.py'), ('linear algebra', 'nimble/calculate/linalg.py')],
     'differential property testing (Hypothesis) against numpy, residual invariants')

prop('C12', 'Merge is the relational join it documents',
     'merge gives, for each combination of point and feature mode (union, intersection, left, strict), with or without onFeature and force, exactly the points and features of the corresponding relational join: every matching pair once, unmatched points as the mode says with missing values in absent cells, and values next to the names they belong to. Conflicting values are refused, and the argument is unchanged.',
     ['inputs', 'configurations'],
     'every pair of tables, data types, modes, key columns with repeated keys or keys found on one side only, and name overlaps',
     'The number of mode, naming and key combinations is large and each data type has its own implementation.',
     [D + 'base.py'] + BACK,
     [('merge', D + 'base.py:merge/_genericMergeFrontend'), ('per type joins', '*_merge_implementation')],
     'differential property testing (Hypothesis) against a nested-loop join')

prop('C13', 'Grouping, uniqueness and counting partition the data',
     'groupByFeature puts every point in exactly one group, in order, with its values and name unchanged; points.unique and features.unique keep exactly the first of each set of equal points or features; countUniqueFeatureValues, countUnique and mapReduce give the counts and reductions a direct computation gives.',
     ['inputs'],
     'every table, grouping features and mapper or reducer, in every data type',
     'Tests use small fixed tables; sparse storage and mixed types take other code paths for hashing values.',
     [D + 'base.py'] + AXIS,
     [('groupByFeature', D + 'base.py'), ('unique', D + 'axis.py:_unique'), ('mapReduce', D + 'points.py')],
     'differential property testing (Hypothesis) against a direct computation')

prop('C14', 'Reshaping operations are invertible',
     'flatten and unflatten, splitByCollapsingFeatures and combineByExpandingFeatures, features.splitByParsing, and construction of high-dimension objects move every value to the documented place, lose none, invent none, and undo one another where documented. Names move with the values.',
     ['inputs', 'configurations'],
     'every shape, order, choice of features and dimension list, in every data type',
     'Index arithmetic in these operations is per type; tests check one or two shapes each.',
     [D + 'base.py', D + 'points.py', D + 'features.py'] + AXIS,
     [('flatten/unflatten', D + 'base.py'), ('split and combine', D + 'points.py, *Axis.py')],
     'round-trip and differential property testing (Hypothesis)')

prop('C15', 'Query strings and match functions select what they say',
     'A query string used to select, count or delete points or features selects exactly the same ones as the comparison it spells applied directly to the values, for each operator and value form, also where names contain spaces or look like values. Each function of nimble.match is true exactly for the values its name describes, agrees with its any/all forms, and matching is the negation of nonmatching.',
     ['inputs'],
     'every query, value, name and matching function over elements, points, features and whole objects',
     'Query parsing is text splitting that meets arbitrary names and values; tests use well-behaved ones.',
     ['nimble/match/match.py', 'nimble/match/query.py', D + 'axis.py'],
     [('QueryString', 'nimble/match/query.py'), ('match functions', 'nimble/match/match.py')],
     'differential property testing (Hypothesis) against direct predicates')

prop('C16', 'Filling replaces exactly the matching elements',
     'fillMatching, points/features.fillMatching and the functions of nimble.fill replace exactly the elements that match, with the value the fill function documents (constant, mean, median, mode, forward, backward, interpolate, k nearest neighbours), and leave every other element, every name and the shape as they were.',
     ['inputs'],
     'every fill function, match (missing, zero, function, list), axis, direction of run of consecutive matches, and data type',
     'Runs of matches at the ends, all-matching vectors and mixed types need generated data; tests sample a few.',
     ['nimble/fill/fill.py', D + 'base.py', D + 'axis.py'],
     [('fill functions', 'nimble/fill/fill.py'), ('fillMatching', D + 'base.py, axis.py')],
     'differential property testing (Hypothesis) against direct definitions')

prop('C17', 'Statistics equal their definitions',
     'Each statistic (mean, median, mode, minimum, maximum, sum, variance, standard deviation, median absolute deviation, quartiles, unique counts, proportions of missing, zero or negative values, covariance, correlation and confidence intervals) equals its textbook definition computed directly on the elements, ignoring missing values where documented. It does so for each data type, axis and container it can be asked through.',
     ['inputs', 'configurations'],
     'every statistic, through calculate functions, axis methods and report methods, over data with zeros, missing values, constants and single elements',
     'Sparse shortcuts for zeros and missing values give different code paths than the dense ones tests mostly use.',
     ['nimble/calculate/statistic.py', 'nimble/calculate/matrix.py', 'nimble/calculate/confidence.py', D + 'axis.py', D + 'features.py'],
     [('statistics', 'nimble/calculate/statistic.py'), ('axis statistics', D + 'axis.py:_statistics')],
     'differential property testing (Hypothesis) against direct definitions')

prop('C18', 'Performance and similarity measures equal their formulas',
     'Every loss, similarity, distance and performance function gives the value of its published formula for all known and predicted values, for each data type and input form, has the stated optimum value exactly for perfect predictions, and does not depend on the order of the points. Confusion matrices and binary measures count each point exactly once and derive from those same counts.',
     ['inputs', 'configurations'],
     'every performance function, label alphabet, type of container, and permutation of points',
     'Tests check chosen inputs; formula errors at zero denominators, rare labels or string labels need search.',
     ['nimble/calculate/loss.py', 'nimble/calculate/similarity.py', 'nimble/calculate/binary.py', 'nimble/calculate/distance.py', 'nimble/calculate/utility.py'],
     [('loss', 'nimble/calculate/loss.py'), ('confusion matrix', 'nimble/calculate/similarity.py'), ('binary', 'nimble/calculate/binary.py')],
     'differential and metamorphic property testing (Hypothesis) against formulas')

prop('C19', 'Normalization applies one fitted transform to all arguments',
     'features.normalize and points.normalize apply to the calling object and to a second object the same transformation, derived from the calling object alone, matching the definition of the chosen normalization; values not chosen for normalizing, names and missing values stay. Applying it to the second object gives each value what the calling object would have given an equal value.',
     ['inputs', 'configurations'],
     'every normalization function, subset of features, data type and second object',
     'Train and test objects go through the same call; only generated pairs show leakage from one to the other.',
     ['nimble/calculate/normalize.py', D + 'axis.py', D + 'features.py'],
     [('normalizers', 'nimble/calculate/normalize.py'), ('normalize', D + 'axis.py:_normalize')],
     'differential property testing (Hypothesis) against definitions')

prop('C20', 'Randomness is reproducible and well formed',
     'With the same seed, every random operation (nimble.random functions, shuffles, random selection, train and test splits, folds, random data) gives the same result, whatever other code did to the global generators, and using an alternate control leaves the outer stream where it was. Random choices are always of the requested size, without repetition where documented, and random data has the requested shape, sparsity and element type.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of seeding, alternate control and random operations',
     'State leaks between streams only show over histories of calls that tests do not combine.',
     ['nimble/random/randomness.py', D + 'axis.py', 'nimble/core/data/base.py'],
     [('stream control', 'nimble/random/randomness.py')],
     'stateful property testing (Hypothesis): replays of operation histories under equal seeds')

prop('C21', 'Train and test splits partition the data with labels aligned',
     'trainAndTestSets puts every point into exactly one of the training and testing sets, the testing share is the requested fraction, and the label of each point stays next to its features and name in every returned object. With randomOrder off the order is the original one, and the source object is unchanged.',
     ['inputs', 'configurations'],
     'every table, test fraction, label choice (None, name, index, several, object) and order, in every data type',
     'Tests use one fraction and one label at a time.',
     [D + 'base.py'],
     [('trainAndTestSets', D + 'base.py:trainAndTestSets')],
     'property-based testing (Hypothesis): permutation and alignment invariants')

prop('C22', 'Training and applying agree with the wrapped learner',
     'Training, applying and testing a learner through nimble.train, trainAndApply, trainAndTest and the TrainedLearner methods gives exactly what the wrapped package gives when called directly with the same data and arguments, for every way to pass the labels (name, index, object) and every data type of the inputs; point names are carried to the predictions. The data objects passed in are not modified and hyperparameters reach the learner as given.',
     ['inputs', 'configurations'],
     'many scikit-learn learners, data types, forms of the labels, argument forms and score modes',
     'Tests run each learner on one data set with default arguments and check that it runs.',
     ['nimble/core/learn.py', 'nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/scikit_learn_interface.py', 'nimble/core/interfaces/_interface_helpers.py', 'nimble/core/_learnHelpers.py'],
     [('train', 'nimble/core/learn.py'), ('interface', 'nimble/core/interfaces/universal_interface.py'), ('scikit-learn', 'nimble/core/interfaces/scikit_learn_interface.py')],
     'differential property testing (Hypothesis) against direct scikit-learn calls')

prop('C23', 'Validation and tuning report what they computed',
     'Cross validation uses folds that partition the points (within folds given by a feature where asked), reports for each argument set the performance obtained from training on the other folds and testing on the held-out one, and tuning selects an argument set whose reported performance is best in the direction of the performance function. Each argument set asked for is tried as its selection strategy documents, and the chosen arguments are those the final learner was trained with.',
     ['inputs', 'configurations', 'histories'],
     'every fold arrangement, validation method, selection strategy, argument grid and performance function with either optimum',
     'Tests check a few grids; whether folds leak or the best is chosen depends on data and direction.',
     ['nimble/core/tune.py', 'nimble/core/_learnHelpers.py', 'nimble/core/learn.py'],
     [('validators', 'nimble/core/tune.py:Validator'), ('selectors', 'nimble/core/tune.py:ArgumentSelector')],
     'property-based testing (Hypothesis) with recording learners and an independent computation of folds')

prop('C24', 'Built-in learners compute their documented result',
     "nimble's own learners give their mathematical definition: k nearest neighbours predicts the majority (or nearest) label, ridge and multi-output regression minimise their penalised squared error, imputation replaces exactly the missing values from the nearest points. Results do not depend on the data type of the inputs.",
     ['inputs', 'configurations'],
     'every small training and testing set, hyperparameter, and data type',
     'Tests use single examples; ties, constant features and degenerate systems need search.',
     ['nimble/learners/knn_classification.py', 'nimble/learners/ridge_regression.py', 'nimble/learners/knn_imputation.py', 'nimble/learners/multioutput_ridge_regression.py', 'nimble/learners/multioutput_linear_regression.py'],
     [('learners', 'nimble/learners/')],
     'differential property testing (Hypothesis) against direct definitions')

prop('C25', 'Multiclass strategies and scores combine binary results rightly',
     'One-versus-one and one-versus-all training give for each point the label that the votes of binary learners trained on the corresponding relabelled data determine, and scoreMode gives the score of each label next to its own label, bestScore being the score of the predicted label. The training data and labels are not modified.',
     ['inputs', 'configurations'],
     'every label set, data set, strategy and score mode, with and without names',
     'Tests use a fixed three-label example; label order and ties vary the indexing.',
     ['nimble/core/learn.py', 'nimble/core/_learnHelpers.py', 'nimble/core/interfaces/universal_interface.py'],
     [('strategies', 'nimble/core/_learnHelpers.py'), ('score modes', 'nimble/core/interfaces/universal_interface.py:_formatScores*')],
     'differential property testing (Hypothesis) against direct binary learners')

prop('C26', 'A trained learner keeps its meaning over its life',
     'A TrainedLearner gives the same predictions before and after being saved and loaded or used on other data; retrain gives the learner that training anew with the new data and merged arguments would give, and incrementalTrain the learner the wrapped package gives for the same sequence of batches. Its reported arguments are those it was trained with.',
     ['histories', 'inputs', 'configurations'],
     'every history of apply, test, retrain, incrementalTrain, save and load on generated data',
     'Tests exercise single transitions, not histories.',
     ['nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/scikit_learn_interface.py'],
     [('TrainedLearner', 'nimble/core/interfaces/universal_interface.py:TrainedLearner')],
     'stateful differential property testing (Hypothesis) against fresh training')

prop('C27', 'The log records exactly what was done, when enabled',
     'Every logged call adds exactly one entry of its kind with the arguments and results of that call, in order; nothing is logged when logging is off for the call or by configuration; and showLog gives back exactly the entries its filters describe. Logging never changes the result of the call or the data.',
     ['histories', 'configurations'],
     'every sequence of logged operations, with useLog on, off or by configuration and every showLog filter',
     'Tests check the entry of one call; nested calls and settings interact over histories.',
     ['nimble/core/logger/session_logger.py', D + 'base.py', 'nimble/core/learn.py'],
     [('logger', 'nimble/core/logger/session_logger.py')],
     'stateful model-based property testing (Hypothesis), oracle: list of expected entries')

prop('C28', 'Configuration set, get, save and reload agree',
     'At every point of any history of set, setDefault, saveChanges and reloading, get returns the value last set, or failing that the value in the saved file, or failing that the default; saving writes exactly the saved settings and no others, and what is reloaded is what was saved. Invalid settings are refused without effect.',
     ['histories'],
     'every sequence of configuration operations and restarts',
     'Tests check one operation at a time; in-memory changes and file contents interact over histories.',
     ['nimble/core/configuration.py'],
     [('SessionConfiguration', 'nimble/core/configuration.py')],
     'stateful model-based property testing (Hypothesis), oracle: layered dictionaries')

prop('C29', 'Element operations touch exactly the elements addressed',
     'Reading, assigning, transforming, calculating on, counting, iterating over and replacing rectangles of elements act on exactly the addressed points and features, in the documented order, and agree with each other: the result at each position is the function of the element (and indices) there, other elements are unchanged, and names and shape stay.',
     ['inputs', 'configurations'],
     'every index form, subset of points and features, function (one or three arguments, dict), option (preserveZeros, skipNoneReturnValues, outputType) and data type',
     'The sparse versions iterate over stored values only; tests use few patterns of zeros and subsets.',
     [D + 'base.py'] + BACK,
     [('element back ends', D + 'base.py:calculateOnElements, transformElements, iterateElements'), ('indexing', D + 'base.py:__getitem__')],
     'differential property testing (Hypothesis) against loops over a table')

prop('C30', 'Printed tables show the data they stand for',
     'toString and the printed form of any object, points or features show, in order, every value and name that fits the width and height allowed, never exceed the allowed width, show a truncation mark exactly where points or features were left out, and never fail or change the object.',
     ['inputs', 'configurations'],
     'every table, width and height limit, significant digits and name inclusion, for all types and views',
     'Layout code splits the available room over columns; overflows arise from particular lengths.',
     [D + 'base.py', D + '_dataHelpers.py', D + 'axis.py'],
     [('layout', D + 'base.py:_arrangeDataWithLimits')],
     'property-based testing (Hypothesis): parse-back and width invariants')

prop('C31', 'Equality of objects is equality of content',
     'isIdentical (and ==) is true exactly when both objects are of the same data type and have the same shape, point names, feature names and values, missing values counting as equal: it is reflexive, symmetric, independent of storage layout, history and of being a view, changes nothing, and notices any difference in a single value or name. hashCode is defined for every content and equal for equal values whatever the type, so isApproximatelyEqual is never false for equal tables.',
     ['inputs', 'histories'],
     'every pair of tables, types, storage histories and single-place perturbations',
     'Each type has its own comparison; a false positive needs a specific place and storage pattern.',
     [D + 'base.py'] + BACK,
     [('isIdentical', D + 'base.py, *_isIdentical_implementation')],
     'metamorphic property testing (Hypothesis): histories reaching equal tables, single perturbations')

prop('C32', 'Axis operations compute per point or feature in order',
     'points/features transform, calculate, count, matching and iteration call the function once for each chosen point or feature, with exactly the values and names it has, in order, and put each result in the place of that point or feature; those not chosen are unchanged.',
     ['inputs', 'configurations'],
     'every axis, subset, user function result (scalars, lists, objects, None) and data type',
     'Tests use whole-axis calls with simple functions on fixed data.',
     [D + 'axis.py', D + 'points.py', D + 'features.py'],
     [('calculate and transform', D + 'axis.py:_calculate, _transform'), ('matching', D + 'axis.py:_matching')],
     'differential property testing (Hypothesis) against loops over a table')

prop('C33', 'Categorical encodings are faithful and reversible',
     'replaceFeatureWithBinaryFeatures gives one 0/1 feature per distinct value, named after it, with exactly one 1 per point at that of its value, and transformFeatureToIntegers maps equal values to equal integers and different values to different ones, returning the mapping it used. All other features, names and their order stay as they were.',
     ['inputs'],
     'every column content (numbers, strings, booleans, zeros, missing values), position and data type',
     'Tests use fixed columns; zeros in sparse data and mixed values take special paths.',
     [D + 'base.py'] + BACK,
     [('encoding', D + 'base.py:replaceFeatureWithBinaryFeatures, transformFeatureToIntegers')],
     'property-based testing (Hypothesis): decode-and-compare')

prop('C35', 'Fetched files are the files at the source',
     'fetchFiles gives local files with exactly the content the source has when it is downloaded (the members of zip and tar archives, the decompressed content of gzip files, otherwise the file), one place per source below the nimbleData directory of the configured location; a source fetched before is not downloaded again unless overwrite is asked for. Nothing is written outside of the place of the source, a failing download changes nothing, and loading from a URL gives the table at the source without storing files.',
     ['inputs', 'histories'],
     'every history of fetching, loading, changing, removing and losing sources of every kind of file and address, including archives that are damaged or want to write elsewhere',
     'Tests fetch each kind of file once into an empty directory from a fixed response.',
     ['nimble/core/_createHelpers.py', 'nimble/core/create.py'],
     [('fetching', 'nimble/core/_createHelpers.py:_DirectURLManager, _IndirectURLManager, _processArchiveFile, _processCompressedFile'),
      ('loading', 'nimble/core/_createHelpers.py:createDataFromFile')],
     'stateful property-based testing (Hypothesis) with a simulated web: histories against a model of the sources and the files stored')

prop('C36', 'Plots draw the data they describe',
     'Every plotting method draws marks exactly where the values of the object, or the statistic, mean with its 95% interval, rolling average or trend computed from them, put them: one bar, point, interval or histogram count for each value, group and subgroup, labelled with the names of what they stand for, whichever way points and features are identified. A figureID adds to the figure made with it before, a new one otherwise, outPath saves that figure, and the object plotted stays as it was.',
     ['inputs', 'histories'],
     'every table, data type, choice of points, features, groups and subgroups, identified by name or index, with every option, and every sequence of plots over several figures',
     'Tests of plots mostly check that a file of any content was written, or compare one table with names.',
     [D + 'base.py', D + 'axis.py', D + '_dataHelpers.py'],
     [('plots of features', D + 'base.py:plotFeatureDistribution, plotFeatureAgainstFeature, plotFeatureGroupStatistics, plotHeatMap'),
      ('comparisons of points and features', D + 'axis.py:_plotComparison'),
      ('figures', D + '_dataHelpers.py:plotFigureHandling, plotOutput')],
     'property-based testing (Hypothesis) against a model of the marks: the artists of the matplotlib figure are compared with values computed from the table')

prop('C37', 'Objects of more than two dimensions behave as their points do',
     'An operation permitted on an object of three or more dimensions, or on a view of one, does to its points, names and values what the same operation does to the object of two dimensions holding the same points flattened, in the dimensions of the original: structural operations, sorting, arithmetic, copies, statistics of the whole, comparisons, splitting, saving and printing. An operation without a meaning there, or whose argument has other dimensions, raises an exception and leaves object, argument and source as they were.',
     ['inputs'],
     'every three or four dimensional object, data type, view and argument, for every public operation',
     'Tests of high dimension objects try each operation on a few nested lists without names, views or missing values.',
     [D + 'base.py', D + 'axis.py', D + 'views.py', D + '_dataHelpers.py'],
     [('dimensions', D + 'base.py:Base.dimensions, _treatAs2D'),
      ('points', D + 'axis.py:Axis._getitem, _replace, _genericStructuralFrontend, _validateInsertableData'),
      ('refusals', D + '_dataHelpers.py:limitedTo2D')],
     'property-based testing (Hypothesis), metamorphic: the same call on the object and on its flat counterpart; refusals checked against a snapshot')

prop('C38', 'Dates and times are values like any other',
     'Moments given as datetime, numpy or pandas objects, and missing ones, stay the same moments through creation, copies to every format, conversion between data types, saving and loading, structural operations, sorting, grouping, merging, counting, encoding, replacing and comparison; text converts to the moments it spells, wherever it comes from, and missing text to missing ones. Moments are not numbers: statistics of them are missing.',
     ['inputs'],
     'every table with dates, with every spelling of a moment and every dense data type, for every operation and conversion',
     'Tests use one or two features of whole days, without missing values, and mostly only create or save them.',
     BACK + ['nimble/core/_createHelpers.py', D + 'base.py', 'nimble/calculate/statistic.py'],
     [('conversions', 'nimble/core/_createHelpers.py:elementTypeConvert, _numpyArrayDatetimeParse, _valueDatetimeParse'),
      ('copies', D + 'dataframe.py:DataFrame._copy_implementation'),
      ('dates allowed as values', 'nimble/_utility.py:isDatetime, isAllowedSingleElement')],
     'property-based testing (Hypothesis) against a plain table of datetime objects, every answer normalised to them')

prop('C39', 'Networks trained through keras are the networks of keras',
     'A network nimble builds, trains, extends with incrementalTrain, retrains and applies from the name of a keras learner and its arguments (layers, optimizer, loss, metrics, epochs, batches, seeds), whatever the data types and spellings of the arguments, has the weights and gives the predictions, scores and labels of the same network built directly with keras; the arguments of the user are left as they were; and the same randomSeed always gives the same network, including its initial weights and its random layers.',
     ['inputs', 'histories'],
     'every network of dense, dropout and activation layers, optimizer, loss and history of training, with every spelling of its arguments and data types',
     'Tests train one network on random data and check that a result comes back.',
     ['nimble/core/interfaces/keras_interface.py', 'nimble/core/interfaces/_interface_helpers.py', 'nimble/core/interfaces/universal_interface.py'],
     [('training and applying', 'nimble/core/interfaces/keras_interface.py:_trainer, _incrementalTrainer, _applyBackend'),
      ('seeds', 'nimble/core/interfaces/keras_interface.py:_seedingArgumentInit'),
      ('scores', 'nimble/core/interfaces/_interface_helpers.py:checkClassificationStrategy')],
     'property-based testing (Hypothesis), differential against keras itself, and reproduction from the seed')

prop('C40', 'A learner receives exactly the data and arguments given',
     'Every method of a learner is called with exactly the data and the arguments the user gave for it, by either way of giving them and at training, applying, testing, scoring, retraining or incremental training, with its own defaults for the others; unknown, missing and contradicting arguments are refused; and the parameters, defaults and type a learner is said to have are those it has. A class is accepted as a learner exactly if it has the stated methods and parameters.',
     ['inputs', 'histories'],
     'every signature of a custom learner, every assignment of arguments to it and every history of its use',
     'Tests use a few fixed learners with one or two parameters, and never look at what their methods receive over a history.',
     ['nimble/core/interfaces/custom_learner.py', 'nimble/core/interfaces/universal_interface.py', 'nimble/core/learn.py', 'nimble/core/_learnHelpers.py'],
     [('arguments per method', 'nimble/core/interfaces/universal_interface.py:_getMethodArguments, _validateLearnerArgumentValues'),
      ('merging', 'nimble/_utility.py:mergeArguments'),
      ('definition', 'nimble/core/interfaces/custom_learner.py:validateCustomLearnerSubclass')],
     'property-based testing (Hypothesis) with generated recording learners, against the semantics of python calls')

prop('C34', 'Results do not depend on the data type',
     'The same public operation with the same arguments on the same table gives the same answer, leaves the same content behind, and succeeds or fails alike, whether the table is held as a List, Matrix, Sparse or DataFrame object, and whatever the types of the objects given as arguments.',
     ['inputs'],
     'every public data operation over tables of every content, size and naming, in all four data types, with argument objects of every type',
     'Each data type has its own implementation of most operations; unit tests compare each of them with fixed expected results for numeric tables only.',
     BACK + [D + x + 'Axis.py' for x in ('list', 'matrix', 'sparse', 'dataframe')] + [D + '_dataHelpers.py'],
     [('implementations per type', D + 'list.py, matrix.py, sparse.py, dataframe.py'),
      ('axis implementations per type', D + 'listAxis.py, matrixAxis.py, sparseAxis.py, dataframeAxis.py')],
     'differential property-based testing (Hypothesis): each operation is run on the four representations of one table')


def main():
    notes = {}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in CATALOG:
            doc = {
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'hook_needed': None}}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(doc, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in CATALOG:
        if os.path.exists(os.path.join(HERE, 'props',
                                       p['id'].lower() + '.py')):
            cmd = '/opt/venv/bin/python run.py %s --tier ' % p['id']
            checks.append({
                'property': p['id'], 'quick_cmd': cmd + 'quick',
                'thorough_cmd': cmd + 'thorough',
                'technique': p['technique'], 'level': 'exploration',
                'level_note': p['note'] or
                'Generated-input search against an explicit oracle: no '
                'counterexample in the cases counted in the evidence; '
                'trusts the reference model in props/%s.py, numpy and '
                'CPython.' % p['id'].lower()})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or
                       'No check has been built for it yet.'})
    doc = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python tools/setup.py',
           'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed,', len(na), 'not')


if __name__ == '__main__':
    main()
