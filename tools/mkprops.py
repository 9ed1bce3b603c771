#!/usr/bin/env python3
"""writes /verif/properties.jsonl (one place to edit the property texts)"""
import json, os

B = "awkward0/array/base.py"; J = "awkward0/array/jagged.py"; M = "awkward0/array/masked.py"; C = "awkward0/array/chunked.py"
I = "awkward0/array/indexed.py"; O = "awkward0/array/objects.py"; T = "awkward0/array/table.py"; U = "awkward0/array/union.py"
W = "awkward0/array/virtual.py"; P = "awkward0/persist.py"; A = "awkward0/arrow.py"; G = "awkward0/generate.py"; Y = "awkward0/type.py"
D = "awkward0/pandas.py"; N = "awkward0/util.py"
ARR = [J, M, C, I, O, T, U, W]
ps = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    ps.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe or ["public API: results of the call, converted to plain Python values"], "hook_needed": None}})


p("P01", "One logical value, whatever buffers represent it",
  "An array stands for one sequence of Python values fixed by its documented buffers: its length, each element, iteration, and conversion to Python lists all show exactly that sequence, for every class and every legal arrangement of the buffers (gaps, reordering, sharing, trailing spare elements, any integer type of index, any nesting). Asking twice, or in a different order, gives the same answer.",
  ["inputs", "configurations"], "all logical types up to depth 3 (numbers, fixed-size inner dimensions, lists, missing values, records, unions, strings, bytes, Python objects) x all physical encodings of them",
  "The tests build a few compact arrays per class; they never combine classes at depth nor vary the arrangement of the buffers for the same value.",
  ARR, [("__len__/__iter__/__getitem__ of every class", "awkward0/array/*.py"), ("tolist", B + ": AwkwardArray.tolist")])
p("P02", "Selecting rows selects like a Python list",
  "Selecting rows with a slice, a list or array of positions (negative ones included), or a boolean mask gives exactly the elements that the same selection gives on the list of values, in that order and with the same type of leaf, and selections compose. Positions outside of the array and masks of another length are refused, and fixed-size inner dimensions can be selected in the same call.",
  ["inputs", "histories"], "all types and layouts, all slices, position lists and masks, sequences of selections on selections",
  "Tests select from small hand-written arrays one step at a time; wrong views only appear after composing selections over particular layouts.",
  ARR, [("__getitem__", "awkward0/array/*.py"), ("Table._newslice, _index", T), ("_util_integer handling", B)])
p("P03", "Selections inside lists act on every list by its own length",
  "In a jagged array of any nesting depth, an integer or slice in a list dimension picks from every list as Python would pick from that list; lists of positions and masks in a list dimension, jagged masks, and jagged positions select element by element within each list and keep the outer structure. A position that one of the lists does not have, or a mask or index of another structure, is refused.",
  ["inputs"], "jagged arrays of depth 1-3 in any arrangement of starts and stops x slices, integers, position lists, masks, jagged masks and jagged positions of matching depth",
  "Tests use compact arrays and single indexes; arrangement of the content, negative steps and empty lists multiply the cases beyond any sample.",
  [J], [("JaggedArray.__getitem__", J), ("_tojagged, tojagged", J)])
p("P04", "Elementwise functions commute with the layout",
  "Applying a Numpy universal function to arrays of equal structure gives, at every leaf, the function of the corresponding leaves; plain numbers are applied to all leaves, flat arrays are broadcast into the lists of the same row, records combine field by field (and compare as true where every field does), and a missing input gives a missing output. Operands whose lengths or list lengths do not match are refused rather than combined.",
  ["inputs", "configurations"], "unary and binary functions, operators and comparisons x all layouts of each operand independently x broadcasting combinations",
  "Each operand can have its own layout, so the number of pairs is quadratic in the layouts; tests cover the compact ones.",
  [B, J, M, C, I, U, T, O, W], [("__array_ufunc__ of every class", "awkward0/array/*.py"), ("broadcast of flat arrays into lists", J + ": __array_ufunc__, tojagged")])
p("P05", "Reductions reduce every innermost list and nothing else",
  "any, all, count, count_nonzero, sum, prod, min, max, mean, moment, var and std reduce each list over exactly its own present elements, with the documented identity for empty lists, skipping missing values, field by field for records, whatever the memory layout; elements that no list refers to never contribute. The number of results equals the number of lists.",
  ["inputs"], "jagged arrays of depth 1-2 of numbers, booleans, missing values and records in any arrangement, incl. empty lists at every position, weights for moments",
  "Reductions run through segmented algorithms whose errors show only for particular positions of empty lists and unreachable content.",
  [B, J, M, I, C, T], [("_reduce, _util_reduce", B), ("JaggedArray._reduce, _minmax paths", J)])
p("P06", "Jagged structure is one thing seen many ways",
  "Starts and stops, offsets, counts, parents, local positions, unique keys, iterables, regular arrays and fixed folding are interchangeable descriptions: a jagged array built from any of them has exactly the described lists, and the description read back from any array describes its lists. Compacting, flattening, restructuring nested lists and regularising keep the elements and their order.",
  ["inputs"], "list structures with empty lists anywhere, in any arrangement of the content, x every constructor and derived view",
  "Tests check each constructor on one example; the conversions between them differ on leading, trailing and repeated empty lists and on unreachable content.",
  [J], [("fromoffsets/fromcounts/fromparents/fromuniques/fromlocalindex/fromregular/fromfolding/fromiter", J), ("offsets, counts, parents, index, localindex", J), ("compact, flatten, structure1d, regular", J)])
p("P07", "Combinations enumerate exactly the combinations of each list",
  "cross, pairs, distincts and choose list, within each row and in the documented order, exactly the combinations of that row's elements (with the other array's row for cross), once each, and their index-valued versions list the positions of the same combinations. Nested results group the same combinations by their first member.",
  ["inputs"], "pairs of jagged arrays with independent layouts, list lengths 0-12, choose of 2-5",
  "The positions are computed by floating-point root formulas and offset arithmetic that go wrong only at particular lengths and arrangements.",
  [J], [("_argcross, _argpairs, _argdistincts, _argchoose", J)])
p("P08", "Positions of extrema and sorts point at them",
  "argmin, argmax and argsort give positions local to each list, with the empty result for empty lists; selecting with them yields the minimum, the maximum, or the list in sorted order as requested, for every layout of the array. On a flat array argmin and argmax give the position of its extremum among the present elements.",
  ["inputs"], "jagged arrays of numbers in any arrangement, with ties, empty lists, and nested one level deeper through the selections",
  "The algorithm depends on the layout of starts and stops; tests use compact arrays.",
  [J, B], [("_argminmax, _argminmax_general, argsort", J)])
p("P09", "Missing data is dropped, filled and reported exactly where it is missing",
  "The mask an array reports is true exactly where its outermost mask makes elements missing; filling replaces exactly the missing elements (and NaN) and nothing else; padding makes every list at least the requested length with missing elements at its end, clipping cuts it to that length; flattening a level and dropping missing lists keep the other elements in order, whichever of the mask representations is used.",
  ["inputs", "configurations"], "boolean, bit and indexed masks, both polarities and bit orders, over numbers, lists and records, in and around lists",
  "Tests use one representation at a time and few lengths; bit masks err at byte boundaries, indexed ones on order.",
  [M, J, B], [("boolmask, fillna, pad, flatten, counts", M), ("pad, fillna", J), ("bool2bit, bit2bool", M)])
p("P10", "Concatenation and zipping are positional",
  "Concatenating arrays along rows gives the values of the first followed by those of the second, and so on, whatever their layouts, and arrays of different types make a union; along lists it joins corresponding lists, and strings of the same row. Zipping arrays into records (broadcasting flat arrays and plain numbers into the lists) and unzipping them returns the same columns row by row, and arrays of different list structure are refused.",
  ["inputs"], "sequences of arrays of the same logical type in different layouts, empty ones included",
  "Tests concatenate arrays of equal layout; offsets and masks must be adjusted for each part.",
  [B, J, M, C, I, T, U, O], [("concatenate, _concatenate_axis0, _concatenate_axis1", "awkward0/array/*.py"), ("zip, unzip", J)])
p("P11", "Building from Python values and converting back is the identity",
  "For any sequence of nested Python values made of numbers, booleans, strings, bytes, None, lists, dicts, named tuples and objects, in any order and mixture, building an array from it (fromiter, from a sequence or a one-pass iterator, with any options) and converting back gives the same values, with the documented conversions only: tuples and other iterables come back as lists, an empty dict as None, and numbers at the same level as their common type. The type of the array and its canonical form (what is masked, what is a union) are the documented ones.",
  ["inputs"], "nested heterogeneous Python data, with changes of type, missing fields and missing values at any position of the sequence",
  "The builder changes representation when a value does not fit the current one; the transition depends on when it happens in the sequence.",
  [G, J, O], [("typeof, fromiter, Fillable classes", G)])
p("P12", "Saved arrays load back as the same array",
  "Serialising any array and loading it back, in any supported container (in memory, pickle, archive file, HDF5 group) and with any compression setting, gives an array with the same values, the same type and the same class of each node (empty chunks and the unused part of a list's content may be dropped, with the wrappers around it resolved); several arrays in the same container do not disturb each other, and a name can be overwritten or removed without affecting others.",
  ["inputs", "configurations", "histories"], "all types and layouts x containers x compression policies x histories of store, overwrite, delete, reload",
  "Tests save a handful of arrays with default settings; serialisation shares buffers between nodes and chooses encodings by size and type.",
  [P], [("serialize, deserialize", P), ("save, load, hdf5", P), ("__awkward_serialize__ of every class", "awkward0/array/*.py")])
p("P13", "Loading refuses functions outside of the whitelist",
  "While loading, only functions that a whitelist entry admits are looked up or called; data that names any other function, at any nesting depth or through any of the ways data can name functions, is refused before that function runs. What the whitelist admits loads normally. An entry admits the function it names and everything below it, except special attributes (__x__).",
  ["inputs", "configurations"], "schemas naming forbidden functions at every position and in every form, whitelists of exact names and patterns",
  "A whitelist is a claim about all possible inputs, in particular hostile ones; tests only load what they saved.",
  [P], [("deserialize: whitelist, spec2function", P)])
p("P14", "Arrow and Parquet conversions preserve values",
  "Converting an array to Arrow (or writing it as Parquet) and back gives the same values, missing values and text included (missing lists and records may become lists and records of missing values), and Arrow data of the supported types, sliced or in several batches, is read as the values Arrow itself reports. Reading one column or row group at a time gives the same values as reading all at once.",
  ["inputs", "configurations"], "numbers, booleans, strings, lists, missing values, dictionaries, record batches and chunked tables, with slicing offsets and row group sizes",
  "Arrow buffers have offsets, bit masks and padding that only some inputs expose; tests use unsliced data.",
  [A], [("toarrow, fromarrow", A), ("toparquet, fromparquet", A)])
p("P15", "Columns and rows of a table commute",
  "Taking a column of selected rows equals selecting those rows of the column, for any number and order of selections; assigning, replacing and deleting columns on a table affects exactly those columns, and a row reports exactly the values of its columns. Columns nested inside lists, unions, masks or other wrappers can be reached the same way.",
  ["histories", "inputs"], "sequences of row selections, column selections, assignments and deletions on tables in any layout",
  "Tables are lazy views whose index composition depends on the history of selections.",
  [T, J, B], [("Table views: _view, _newslice, _index, _length", T), ("__setitem__, __delitem__, columns", T)])
p("P16", "Operations never change their inputs",
  "Selecting, computing, reducing, combining, converting, saving and building leave every buffer of their inputs, including indexes, masks and the arrays the caller passed in, exactly as it was, and an input still shows the same values afterwards. Only explicit assignment and appending change an array.",
  ["inputs", "programs"], "every operation of the other properties, on read-only and writeable buffers",
  "Sharing of buffers is invisible until a later use; tests look at results, not at operands.",
  [B] + ARR + [P, A, G], [("all operations", "awkward0/array/*.py")], ["every Numpy buffer reachable from the operands, before and after each call", "values of the operands before and after"])
p("P17", "Virtual arrays are transparent and compute as promised",
  "A virtual array shows the values its generator makes, for every operation; it runs its generator when data are first needed and not before, not again while its cache still has the result, and again after an eviction. A generator or cache that fails leaves the array usable: the error reaches the caller and a later use succeeds.",
  ["histories", "fault_sequences", "configurations"], "sequences of uses, evictions, failures and selections, with private, shared, bounded and failing caches",
  "Laziness and eviction are about histories and about what does not happen; tests check a few calls with one cache.",
  [W], [("materialize, array, ismaterialized", W), ("_gettype, __len__ of virtual array", W)], ["number of generator calls", "cache accesses", "values"])
p("P18", "Appending keeps what was there and adds at the end",
  "After any sequence of appends, extensions, and reads, an appendable array holds exactly the values given so far in order, whatever the chunk size; views and selections taken earlier keep their values. Reading between appends never exposes anything that was not appended.",
  ["histories"], "sequences of append, extend, slice, read, elementwise functions on appendable arrays of any chunk size and inner shape",
  "The visible part of the last chunk depends on the whole history.",
  [C], [("AppendableArray.append, extend, _filled", C)])
p("P19", "Chunk boundaries are invisible",
  "How a sequence is cut into chunks, empty chunks and unknown chunk sizes included, never changes the result of an operation: the answer is the one for the same values in one piece. Positions translate between chunk-local and global exactly.",
  ["inputs", "configurations"], "all ways of cutting a sequence x row selections, elementwise functions, reductions, columns, conversions",
  "Errors appear only for operations that meet a boundary or an empty chunk.",
  [C], [("ChunkedArray.__getitem__, offsets, local2global, global2local, __array_ufunc__, _reduce", C)])
p("P20", "The declared type describes the elements",
  "The type, dtype and shape an array reports, for every layout, describe exactly the values it holds: list, missing, union, record and fixed-size structure at the right depth, the right leaf types, and equal logical types compare equal for different layouts (and different logical types do not). Types compare by structure, also when they are recursive or share parts: in any order of record fields and of union possibilities, with unions within unions and options within options counting as one, and fixed-size dimensions inside or outside of records; equal types have equal hashes; comparing changes nothing and printing is stable. A virtual array only materializes an array of the type it declares.",
  ["inputs"], "all logical types and layouts (unions with elements, outside of chunks); pairs of equivalent and different types; recursive records through lists, options and unions",
  "Tests compare a few types of hand-written arrays; the composition rules are about all nestings.",
  [Y, B], [("fromarray, Type classes, _eq", Y), ("_gettype of every class", "awkward0/array/*.py"), ("VirtualArray.materialize", W)])
p("P21", "Inconsistent buffers are detected, not read",
  "Constructing or using an array whose buffers contradict each other (lists ending before they start or beyond the content, positions or tags beyond what they point into, masks too short or too long, chunk sizes other than their chunks', offsets, indexes and masks of a wrong dtype or shape) raises an error instead of returning data: it is rejected when constructed or assigned, or else valid() is False and selecting, iterating or converting raises, until the parts agree again. Correct buffers are never rejected.",
  ["inputs", "fault_sequences"], "one corruption of each kind at any position of any layout",
  "Each check is on a different class and position; tests probe few of them.",
  ARR, [("_valid of every class, property setters", "awkward0/array/*.py")])
p("P22", "Copies are independent and conversions keep structure",
  "A copy shows the same values and can be given new parts without affecting the original; a deep copy shares no memory with the original; changing the leaf type converts every leaf and nothing else; zeros, ones and empty versions have the same structure as the original, filled as named.",
  ["inputs"], "all layouts x copy, deep copy, type change, and same-structure constructors",
  "Sharing and structure can only be judged by comparing buffers for every class and nesting.",
  ARR, [("copy, deepcopy, astype, zeros_like, ones_like, empty_like", "awkward0/array/*.py")])
p("P23", "Arrays of strings behave like lists of strings",
  "An array of text or bytes holds exactly the strings it was built from, in every constructor and encoding; comparisons, selection and encoding changes act on whole strings, and strings of equal bytes compare equal whatever their layout.",
  ["inputs"], "strings with multi-byte characters, empty strings, embedded NULs, byte strings; encodings utf-8, utf-16, latin-1 and none",
  "Tests use short ASCII words.",
  [O], [("StringArray, StringMethods", O)])
p("P24", "Methods of a class survive every operation",
  "Methods mixed into an array class (awkward0.Methods or a subclass) are kept by copying, by selecting rows or inside of lists, and by conversions that keep the structure (zeros_like, ones_like, astype, concatenation, flattening of lists of records), for the array and for every array inside it. After an elementwise function, records and objects keep their methods; selecting a column gives the methods of that column; and in both cases lists, options and chunks have the methods of what they now contain and not their former ones. The methods compute the same values as row by row, an overloaded elementwise function is used wherever the records are nested, and mixing in changes no value and no other array.",
  ["programs", "inputs"], "markers at random places of random arrays x sequences of selections and conversions; computed methods and overloaded functions on records inside lists, options, positions, chunks and virtual arrays",
  "Tests check single operations on one class.",
  [O, J, T], [("Methods.mixin, maybemixin", O), ("__getitem__, copy, __array_ufunc__ of every class", "awkward0/array/*.py")])
p("P25", "Pandas data frames show every element once, in its place",
  "topandas(array, flatten=True) gives one row for each innermost element of the lists, labelled with its position in the array and in each level of lists; one column for each field (named by its path through nested records, in order), repeating the values outside of lists and showing missing numbers as missing; whatever the buffers behind the values. Columns of lists of different lengths, and unions or optional lists or records, are refused with ValueError. With flatten=False, the columns are the same arrays: values, slices, boolean masks and single items taken in Pandas are those of the array.",
  ["inputs"], "numbers, strings, optional numbers, nested records, lists of any depth, lists of records; jagged columns of equal and of different lengths; every layout (flatten=False: lists, strings, records and numbers, not chunked, masked, or virtual)",
  "Tests check a handful of tables in their default layout.",
  [D, B], [("topandas, topandas_flatten", "awkward0/util.py"), ("_topandas of every class", "awkward0/array/*.py"), ("AwkwardSeries", "awkward0/pandas.py")])
p("P26", "Earlier observations do not change later answers",
  "The answer of any operation depends only on the values of its operands: observing an array before (its length, type, derived structure, printing, a failed operation, materialising, serialising) never changes what a later operation returns, and repeating an operation gives the same result.",
  ["histories", "programs"], "random interleavings of observations and operations over two copies of the same array",
  "Cached derived structure goes stale only after particular sequences.",
  ARR, [("cached offsets, counts, parents, validity flags", J + ", " + C + ", " + U + ", " + M)])
p("P27", "Switches that forbid slow or implicit conversion are honoured",
  "With allow_iter off (on the base class, on a class or on one array), looping over such an array from outside (list, for, iter, zip, tolist, ...) raises RuntimeError instead of returning; with allow_tonumpy off, implicit conversion by Numpy (numpy.array, numpy.asarray, numpy.concatenate, numpy.sort, ...) does. With both forbidden everywhere, whole-array work goes on unchanged, because it needs neither: selecting, arithmetic, reducers, restructuring, combinatorics, concatenation, masking, records and copies give the same answers as without the switches, and arrays can still be printed. (Excepted, as they look at elements: argmax, argmin, argsort, fillna and string comparison, and arrays in chunks inside others.) With check_prop_valid or check_whole_valid off, results for valid arrays are unchanged, and invalid arrays are not refused on assignment or first use, respectively.",
  ["configurations", "inputs"], "all combinations of the switches x operations x layouts",
  "Tests run with the default switches.",
  [B, M, C, I, U, T, O, W, J], [("_checkiter, _checktonumpy, check_prop_valid, check_whole_valid", B)])

p("P28", "A sparse array stands for the dense array it describes",
  "A SparseArray behaves as the dense array of its length whose rows are its content at the stored positions and its default value everywhere else: its length, iteration, item access, slices, integer and boolean selections (including with inner dimensions), elementwise functions, comparisons and reductions, dense, boolmask, regular, flatten and pad, and selections that use a sparse array as a boolean mask, all equal those of that dense array, whatever the default, however many positions are stored, wherever content has more rows than positions and whatever is nested around it. Assigning a new length, index, content or default has the effect of building a new SparseArray with those parts, so nothing derived earlier is remembered. Of lists, an empty list stands where nothing is stored. A column of a sparse array of records is the sparse array of that column; assigning a column stores its values at the stored positions, and is refused if it has another length or non-zero values elsewhere. (Claimed for contents of numbers and fixed-size rows of numbers, lists, and columns of records; elementwise functions and reductions for numbers.)",
  ["inputs", "histories"], "numbers of stored positions x defaults x spare content x operations x new parts",
  "Tests hold a handful of sparse arrays with a default of zero.",
  [I, B], [("SparseArray.__getitem__, _getinverse, dense, boolmask, __array_ufunc__, _reduce", I)])

p("P29", "Replacing an array's parts makes it the array of the new parts",
  "Assigning to a part of an array (starts, stops, offsets, counts, parents, content, index, tags, contents, mask, maskedwhen, lsborder, chunks and chunksizes, generator, args, kwargs, encoding), in any order and number of steps, and copying an array with new parts (a.copy(content=...)), gives the array that a construction from the resulting parts would give: its elements, length, type, selections and everything derived (counts, offsets, parents, local positions, masks, chunk boundaries) follow the new parts, no matter what was looked at, derived or remembered before. Copies made earlier keep the parts they had. (Chunks and chunksizes are assigned together; virtual arrays keep what they have computed.)",
  ["histories"], "classes x parts assigned x observations in between, histories of up to 5 assignments",
  "Tests assign a part only right after construction, before anything has been derived.",
  [J, I, M, U, C, O], [("property setters and copy() of each class, _isvalid, _offsets, _counts, _parents, _types", J)])

p("P30", "A row is the record it shows",
  "A row obtained in any way (by position, iteration, from a selection, a list, an option, a union, chunks, or a column of records) shows the record at its place: its columns, length, membership, items, attributes, listing, iteration (names of a record, members of a tuple) and conversion to Python are those of that record. Rows are equal exactly if they have the same fields with equal values, wherever they come from; elementwise functions of rows, and of rows with numbers, give the row that they give field by field, with arrays or tables the table of all combinations with that row; comparing by order gives one boolean; and the row itself never changes.",
  ["inputs"], "records with numbers, strings, lists, options and records; rows from views, selections of selections, wrappers and nested tables",
  "Tests look at few rows, mostly of tables that are not views.",
  [T], [("Table.Row", T)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in ps:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
