#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
I = 'biggus/_init.py'
P = []


def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))


add('C01', 'Indexing a wrapped data source selects exactly the orthogonal sub-array',
    'For an array that wraps a concrete data source (either adapter), any chain of index operations - integers, slices with any start/stop/step, '
    'index tuples or integer vectors, boolean vectors, ellipsis and new axes, each axis treated independently - yields a virtual array whose shape and '
    'realised plain and masked values are those obtained by applying the same operations one after another, axis by axis, to the source data. '
    'This includes negative and repeated indices, empty selections, single masked elements and selections applied to earlier selections.',
    ['inputs', 'histories'],
    'all source shapes up to 4 dimensions with small extents, all key combinations from a per-axis alphabet, all chains of index operations up to the depth bound, masked and unmasked sources',
    'The tests index a few shapes with a few hand-picked keys and mostly check only the resulting shape on all-zero data; key composition must be right for every pair of keys.',
    [I], [('_ArrayAdapter._getitem_full_keys/_remap_new_key/_cleanup_new_key', I), ('NumpyArrayAdapter._apply_keys', I), ('_full_keys, _sliced_shape', I)],
    [('_keys', 'pending index keys of an adapter, one per source axis', I)],
    ['Array.shape', 'Array.ndarray()', 'Array.masked_array()'])

add('C02', 'Stacks and mosaics behave like the stacked/concatenated data',
    'An array built by stacking arrays along new leading dimensions (from an object array of any shape, or from a flat sequence with C or Fortran order) or by tiling arrays along an existing dimension '
    'has the shape, plain values and masked values of the corresponding stacked or concatenated data. Indexing it with integers, slices of any step, index tuples, boolean vectors, ellipsis and new axes selects what '
    'the same orthogonal indexing selects from that combined data, across tile and item boundaries, for any tile extents, nesting and chain of index operations.',
    ['inputs', 'histories'],
    'all stacks and mosaics of bounded size (tile extents, tile counts, axis, stack shapes, nestings), all keys of the alphabet, chains of index operations to the depth bound',
    'The tests use mosaics whose tiles repeat the same numbers and only index the tiling axis with a handful of non-negative keys; boundary-crossing, negative, reversed, boolean and empty selections are not sampled.',
    [I], [('ArrayStack._getitem_full_keys, multidim_array_stack', I), ('LinearMosaic._getitem_full_keys, ndarray, masked_array', I)],
    [('_stack', 'object array of items', I), ('_tiles/_axis', 'tiles and tiling axis', I)],
    ['Array.shape', 'Array.ndarray()', 'Array.masked_array()'])

add('C03', 'Lazy views (transpose, new axes, broadcast, cast, mask, constant) are exact',
    'Transposing, inserting new axes, broadcasting, casting to another data type, masking a value, and constant/zeros/ones arrays give exactly the plain and masked values of the corresponding NumPy operation, in any nesting order. '
    'Indexing such a view selects what the same orthogonal indexing selects from the realised view; where a key type is documented as unsupported for a broadcast or inserted axis the request is refused explicitly instead of returning other data.',
    ['inputs', 'histories'],
    'all sequences of view-building and indexing operations up to the depth bound from small base arrays',
    'The unit tests check each view class alone, with one or two keys; compositions (index of transpose of broadcast of ...) and mixed key types are unbounded.',
    [I], [('TransposedArray', I), ('NewAxesArray', I), ('BroadcastArray', I), ('AsDataTypeArray', I), ('MaskValueArray', I), ('ConstantArray', I)],
    [('_new_axes, _broadcast_dict, _leading_shape, axes', 'view parameters remapped on every index', I)],
    ['Array.shape', 'Array.dtype', 'Array.ndarray()', 'Array.masked_array()'])

add('C04', 'Elementwise arithmetic agrees with NumPy, including broadcasting and masks',
    'Every elementwise function and arithmetic operator, applied to any mix of virtual arrays, NumPy arrays and numbers, evaluates to the values NumPy computes on the realised operands, with NumPy\'s broadcasting of shapes, '
    'and on masked evaluation to the values and mask of the NumPy masked-array operation. Incompatible shapes are refused when the expression is built, and indexing the expression selects the same elements as indexing its result.',
    ['inputs'],
    'every exported elementwise function and operator; all pairs of small broadcast-compatible and -incompatible shapes; operand kinds (virtual, NumPy, Python and NumPy scalar, reflected); data types; mask patterns; keys; evaluation directly and inside streamed evaluation with any piece limit',
    'Only seven of the functions are evaluated against NumPy by the tests, on unmasked float data and a handful of shape pairs.',
    [I], [('_Elementwise', I), ('BroadcastArray.broadcast_arrays/_compute_broadcast_kwargs', I), ('_ufunc_wrapper table', I), ('Array.__add__ ... __rpow__', I)],
    [], ['_Elementwise results via ndarray()/masked_array()'])

add('C05', 'Aggregations equal NumPy for every way the data is cut into pieces',
    'count, min, max, sum, mean, std and var along any axis of an array give the values NumPy gives on the whole array (sum in the source\'s integer or floating data type), whatever piece-size limit is in force and hence however the data is cut '
    'up along the aggregated and the other axes. This holds for boolean, small-integer, integer, floating and complex data where NumPy defines the aggregate (min and max: real data; std and var: no infinities), and for any ddof.',
    ['inputs', 'configurations'],
    'all small shapes (1-3 dimensions, plus 4-D samples), every axis, every piece limit from one element to the whole array, data types, ddof values, value patterns including NaN, extremes and overflow-prone integers',
    'The suite evaluates all but one aggregation with a limit that puts the whole array in one piece, so cross-piece accumulation is never compared for count, min, max, sum, std or var.',
    [I], [('_*StreamsHandler.bootstrap/process_data/finalise', I), ('_AggregationStreamsHandler.process_chunks', I), ('_all_slices_inner', I)],
    [('running_total, running_count, k, a, q, current_keys', 'accumulators of one output piece', I)],
    ['mean/sum/... .ndarray()'])

add('C06', 'Masked aggregations treat missing data exactly, whatever the cut',
    'Evaluated as masked arrays, count, min, max, sum, mean, std and var along any axis have the mask and unmasked values NumPy masked arrays give on the whole array, for every pattern of missing data and every piece-size limit (mean, std and var: of finite data). '
    'An element of a mean is masked exactly when all its contributing values are missing or the missing fraction exceeds the tolerance mdtol given for it.',
    ['inputs', 'configurations'],
    'all mask patterns over small arrays, every axis, every piece limit, mdtol over the thresholds around every attainable fraction, ddof, data types',
    'Tests use a few mask patterns in a single piece; whether a fully missing piece, a missing first element or a mask confined to one piece is handled depends on pattern x cut.',
    [I], [('_CountMasked/_MinMasked/_MaxMasked/_SumMasked/_MeanMasked/_StdMasked/_VarMasked StreamsHandler', I)],
    [('running_count, running_masked_count, mask', 'per-element missing-data accounting', I)],
    ['mean/sum/... .masked_array()'])

add('C07', 'Composed expressions evaluate to the reference value and commute with indexing',
    'Any expression composed from sources, stacks, mosaics, views, elementwise operations and aggregations evaluates, plain and masked and under any piece-size limit, to the value of the same computation in NumPy. '
    'Indexing the composed expression before evaluating gives the same elements as evaluating it and indexing the result.',
    ['programs', 'inputs', 'configurations'],
    'all expression trees up to the depth bound over a small alphabet of constructors, each evaluated for several piece limits and followed by every key of a small alphabet',
    'Streaming stages compose: each is tested alone, but a tree of them has to agree on piece boundaries and traversal order, which only shows when sources of different rank are cut differently.',
    [I], [('AllThreadedEngine.Group._make_node', I), ('input_iteration_order', I), ('_Aggregation._getitem_full_keys', I), ('_Elementwise._getitem_full_keys', I)],
    [], ['ndarray()', 'masked_array()'])

add('C08', 'Evaluating several expressions together equals evaluating each alone',
    'Requesting several virtual arrays in one batch returns, in request order, exactly the results of evaluating each on its own, whatever they share (sources, sub-expressions, the same array twice), '
    'along whichever axes they aggregate, and whatever the piece-size limit. The same holds for plain and for masked batches.',
    ['programs', 'configurations'],
    'all batches of up to three expressions from an alphabet of expressions sharing sources and sub-expressions, all piece limits',
    'The suite has five batches, all with the data in one piece, so conflicting traversal orders over a shared source never arise.',
    [I], [('AllThreadedEngine._evaluate, Group._make_node node cache', I), ('Node.output fan-out', I)],
    [('_node_cache', 'nodes shared inside one evaluation', I)],
    ['biggus.ndarrays', 'biggus.masked_arrays'])

add('C09', 'Evaluation result and termination do not depend on thread scheduling',
    'Whatever the interleaving of the evaluation\'s threads, an evaluation terminates and returns the same, correct result. '
    'When it has returned, its worker threads all run to completion.',
    ['schedules'],
    'all interleavings of the synchronisation operations of small expression graphs (chains, fan-out, joins, diamonds, nested evaluations), plus all single pre-emptions at every executed statement',
    'A test run observes one interleaving chosen by the OS; deadlocks and lost or reordered pieces need particular ones.',
    [I], [('Node.thread/ConsumerNode.run/ProducerNode.run', I), ('bounded queues', I), ('Group.evaluate start/join order', I)],
    [('output_queues/input_queues', 'bounded queues between nodes', I)],
    ['biggus.ndarrays', 'biggus.masked_arrays', 'live threads'])

add('C10', 'A failure anywhere in an evaluation is reported, never hung on or papered over',
    'If reading any piece of any source, or computing any piece of any intermediate or result, raises (any kind of exception), the evaluation call raises; it never hangs and never returns values, for every position of the failure and every thread interleaving. '
    'Afterwards no worker thread of that evaluation stays blocked, and later evaluations of the same arrays are unaffected once the cause is gone.',
    ['fault_sequences', 'schedules'],
    'every single fault position (each source read, each operator and accumulation step, failure while setting up) and pairs of faults, in batches with shared sources, under all/bounded interleavings',
    'There is no test of a failing source or operator at all.',
    [I], [('Node.abort, QUEUE_ABORT', I), ('ConsumerNode.run/ProducerNode.run exception handling', I), ('NdarrayNode.abort', I), ('Group.evaluate result check', I)],
    [('QUEUE_ABORT/QUEUE_FINISHED', 'in-band end-of-stream signals', I)],
    ['biggus.ndarrays raising', 'live threads'])

add('C11', 'Read-ahead is bounded: data is processed piece by piece, not accumulated',
    'During a streamed evaluation the number of pieces that have been read from a source but not yet consumed downstream stays below a constant that depends only on the expression, '
    'not on how many pieces the source has, even when any one stage is delayed indefinitely.',
    ['schedules', 'configurations'],
    'every expression graph of the family, every worker stalled at every one of its synchronisation steps while all others run, for increasing numbers of pieces',
    'Memory boundedness is the documented reason for chunked evaluation, but no test observes how far a producer runs ahead, and on a fast consumer it rarely does.',
    [I], [('ConsumerNode.add_input_nodes bounded queue', I), ('ProducerNode.run', I)],
    [('queue maxsize', 'bound on undelivered pieces per edge', I)],
    ['reads of the data source', 'pieces consumed'])

add('C12', 'Nothing is read until evaluation, then each needed element exactly once',
    'Building, composing, indexing and inspecting (shape, data type, size, text form) virtual arrays reads no source data. '
    'Evaluating then reads every needed element of each wrapped source and no other (a source supporting only NumPy indexing may be read in full along axes indexed by vectors), and none twice unless it is itself selected, broadcast or used more than once. '
    'Batch members which reach the same virtual array through elementwise operations and aggregations along one axis share its reads.',
    ['programs', 'histories', 'configurations'],
    'all operation sequences of the alphabet up to the depth bound followed by an evaluation, over read-recording sources, for all piece limits',
    'Tests count reads for a few expressions in one piece; laziness must hold after every operation sequence.',
    [I], [('lazy constructors/__getitem__', I), ('node cache', I), ('_apply_keys', I)],
    [], ['__getitem__ calls on the data source'])

add('C13', 'Streamed work is cut into in-limit, non-overlapping pieces that cover everything',
    'Whenever an array is streamed (operands of elementwise operations, inputs of aggregations, saving), the pieces requested from a source or written to a target are within its bounds, never contain more elements than the configured limit, never overlap, and together cover the whole array exactly, '
    'for any shape (including zero-length and one-length dimensions) and any limit.',
    ['inputs', 'configurations'],
    'all shapes up to 4 dimensions with small extents x all limits x all aggregation axes',
    'Tests run two limits on one shape and look only at whether everything was written.',
    [I], [('_all_slices_inner', I), ('ProducerNode.chunk_index_gen', I), ('save', I)],
    [('MAX_CHUNK_SIZE', 'piece limit in elements', I)],
    ['__getitem__ calls on the source', '__setitem__ calls on the target'])

add('C14', 'Saving stores exactly the array\'s values in the target',
    'Saving an array to a target assigns to every position of the target exactly once and with exactly the value (or, when saving masked, value and mask) that evaluating the array gives there, for every shape, expression kind and piece-size limit. '
    'A failure while reading or writing is raised to the caller.',
    ['inputs', 'configurations', 'fault_sequences'],
    'all small shapes and expression kinds x all limits x plain/masked x every failing read or write position',
    'Tests save one 2-D array with two limits; partially cut dimensions, 0-d and empty arrays, computed sources and masked multi-piece saves are not covered.',
    [I], [('save, _all_slices', I)], [], ['target.__setitem__'])

add('C15', 'Declared shape, data type and size are those of the evaluated result',
    'For every virtual array, the declared shape, number of dimensions, data type and byte count equal those of both its plain and its masked evaluation, which return a NumPy array and a NumPy masked array respectively. '
    'Indexing, transposing and broadcasting retain the data type. The conversion protocol (numpy.asarray) gives the plain evaluation.',
    ['programs', 'inputs'],
    'all expression trees of the alphabet to the depth bound x data types x piece limits, after every indexing step',
    'Tests compare declared metadata with expected constants for single classes; agreement with the evaluated result must hold for every composition and type combination.',
    [I], [('dtype/shape properties of every Array class', I), ('_Elementwise dtype computation', I)], [],
    ['shape', 'dtype', 'ndim', 'nbytes', 'ndarray()', 'masked_array()', 'numpy.asarray'])

add('C16', 'Evaluation has no side effects: sources unchanged, results repeatable',
    'Evaluating, indexing, saving or copying virtual arrays, in any order and any number of times, never changes the data, mask or fill value of any source, and re-evaluating an array (or a deep copy of it) gives the same result every time, '
    'regardless of which other evaluations, indexings or failed evaluations happened before.',
    ['histories'],
    'all histories of operations (evaluate plain/masked, batch, index, copy, save, failing evaluation, change of limit) up to the depth bound over a set of shared arrays',
    'Each test evaluates fresh arrays once; state leaking between evaluations (cached nodes, reused accumulators, in-place arithmetic on source pieces) needs a history.',
    [I], [('per-evaluation nodes and handlers', I), ('ArrayStack.__deepcopy__', I)],
    [('_node_cache, handlers, _cached_shape', 'must not outlive or leak between evaluations', I)],
    ['source data', 'ndarray()', 'masked_array()', 'copy.deepcopy'])

add('C17', 'The dask engine gives the same results as the default engine in any task order',
    'Evaluating any batch of expressions through the dask engine returns, for every order in which the task graph\'s dependencies allow the tasks to run, the same plain and masked results as the default engine, whatever the piece-size limit. '
    'Its key grouping partitions the result so that every piece of every input is assigned to the one group containing it, with groups no coarser than the inputs\' common boundaries.',
    ['programs', 'schedules', 'configurations'],
    'all expressions and batches of the alphabet x all piece limits x all (small graphs) or all bounded-deviation topological orders; all families of interval partitions of small extents for the grouping',
    'The dask engine\'s tests look at function names in the graph; no result is compared.',
    ['biggus/experimental/dask_engine.py', 'biggus/experimental/key_grouper.py', I],
    [('DaskGroup._make_stream_handler_nodes/_make_nodes/collect', 'biggus/experimental/dask_engine.py'), ('group_keys, dimension_group_to_lowest_common', 'biggus/experimental/key_grouper.py')],
    [('dsk_graph', 'task graph', 'biggus/experimental/dask_engine.py')],
    ['DaskEngine.ndarrays', 'DaskEngine.masked_arrays', 'group_keys'])

add('C18', 'Invalid requests are refused instead of yielding other data',
    'Indexing any virtual array with an out-of-range integer (alone or inside an index tuple), with too many keys, with a boolean vector of the wrong length or with a non-index object raises an error no later than evaluation, and never yields data. '
    'Likewise aggregating over a missing or out-of-range axis, and combining arrays of inconsistent shape, data type or rank, is refused, and no request that is refused reads any source data.',
    ['inputs'],
    'every array class and small compositions x every invalid key/axis/combination in the alphabet',
    'Tests probe a few invalid requests on a few classes; acceptance must be impossible for every class, because a wrong index silently accepted yields plausible data.',
    [I], [('_full_keys', I), ('_cleanup_new_key/_remap_new_key', I), ('_sliced_shape', I), ('_normalise_axis', I), ('constructor checks', I)], [],
    ['exceptions from __getitem__, aggregations, constructors'])

add('C19', 'Concurrent evaluations of shared arrays do not disturb each other',
    'When several client threads evaluate, index or inspect the same or overlapping virtual arrays at the same time, each gets the result it would get alone, in every interleaving, and all terminate.',
    ['schedules'],
    'two client threads (three in thorough) with one or two operations each on shared expressions; all interleavings with a bounded number of pre-emptions at synchronisation operations and at every statement',
    'No test evaluates from more than one client thread.',
    [I], [('per-evaluation Group/node cache', I), ('handlers created per evaluation', I), ('LinearMosaic cached shape', I)],
    [('engine singleton', 'shared by all evaluations', 'biggus/__init__.py')],
    ['biggus.ndarrays', 'Array.shape', 'Array.__getitem__'])

add('C20', 'Fill values are declared, carried and used consistently',
    'An array which wraps a data source declares that source\'s fill value (its data type\'s default where it has none); a stack or mosaic declares the one its items have in common (floating NaNs being alike), else the default; '
    'indexing (of at least one element), transposing, inserting axes and broadcasting retain it, while selecting from a stack or mosaic of different fill values goes by the items selected. '
    'The masked evaluation of such an array, alone or in a batch, for any piece limit, carries the declared fill value, and its plain evaluation has each source\'s own fill value at that source\'s masked positions.',
    ['inputs', 'configurations'],
    'all kinds of source x data types x fill values of an alphabet x all stacks and mosaics of up to three items with every assignment of fill values x views and index histories to the depth bound x piece limits',
    'Tests compare the declared fill value of a stack and a mosaic of mock arrays; that every combination of views, keys and pieces keeps and uses it is a statement about all compositions.',
    [I], [('_ArrayAdapter.fill_value/ndarray/masked_array', I), ('ArrayStack.__init__, LinearMosaic.__init__', I), ('ArrayContainer', I), ('NdarrayNode', I)],
    [('_fill_value', 'the common fill value of the items', I)],
    ['Array.fill_value', 'masked_array().fill_value', 'ndarray()', 'biggus.ndarrays', 'biggus.masked_arrays'])

add('C21', 'Replacing an item changes the stack and nothing made from it before',
    'After an item of a stack has been replaced, the stack, and every expression or container which holds that stack, evaluates to the current items; arrays which were made earlier by indexing or deep copying it (or something containing it) are unaffected, '
    'and replacing items in those doesn\'t affect the original. A replacement of inconsistent shape or data type, or at an invalid position, is refused and changes nothing.',
    ['histories'],
    'all histories up to the depth bound of replacing, indexing, deep copying, transposing, stacking, tiling, computing and evaluating, over small stacks, nested stacks and stacks with repeated items',
    'The tests replace items of one stack and look at its object array; aliasing between stacks, copies and selections shows only in histories with several steps.',
    [I], [('ArrayStack.__setitem__', I), ('ArrayStack._getitem_full_keys', I), ('ArrayStack.__deepcopy__', I)],
    [('_stack', 'object array of items; must not be shared with selections or copies', I)],
    ['ArrayStack.__setitem__', 'ndarray()', 'masked_array()', 'biggus.masked_arrays'])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
