"""The properties: text, anchors, and how each is decided (source of properties.jsonl)."""

SYM = "solver-driven symbolic execution of the real Python code (z3)"
NOTE = ("bounded: every value within the stated bounds is covered by a solver-decided path; "
        "trusts z3, the proxy semantics (validated by re-running path models on unpatched code) ")
MPI = NOTE + "and the simulated communicator (validated under real mpirun)"

P = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mechanism, technique=SYM, note=NOTE,
         na=None, design=""):
    P[id] = dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files,
                              mechanism=[dict(name=a, where=b) for a, b in mechanism]))
    P[id]["_m"] = (technique, note)
    P[id]["_d"] = design
    if na:
        NA[id] = na


prop("P01", "Work is split over processes exactly, in order and evenly",
     "Dividing a range or a list over any number of processes gives every element to exactly "
     "one process, keeps the order of the elements inside each piece, and gives pieces whose "
     "sizes differ by at most one. Contiguous pieces follow each other without gap or overlap, "
     "and the piece a process computes for itself is the same one every other process "
     "attributes to it.",
     ["inputs", "configurations"],
     "all lengths, all numbers of processes, all ranks, contiguous and alternating division",
     "Tests look at a few lengths on the process count they run with; off-by-one errors show "
     "only for particular remainders of length by process count.",
     ["caput/util/arraytools.py", "caput/util/mpitools.py"],
     [("split_m / partition_list / partition_list_alternate", "caput/util/arraytools.py"),
      ("split_all / split_local / partition_list_mpi / mpirange", "caput/util/mpitools.py")])

prop("P02", "Redistributing an array loses, duplicates and misplaces no element",
     "After changing the axis over which an array is distributed, every process holds exactly "
     "the standard contiguous share of the same global array along the new axis, with matching "
     "global shape, offset and bounds, whatever the shape, element type, memory order and "
     "number of processes (also when some processes hold nothing). The source array is "
     "unchanged and redistributing back restores it; the exchange never deadlocks, whether "
     "sends complete eagerly or only when received.",
     ["inputs", "configurations", "schedules"],
     "all shapes, axis pairs, element types, process counts and message completion orders",
     "Tests run with one or a few processes and shapes that divide conveniently; wrong block "
     "offsets need uneven remainders or empty processes, and deadlocks need a schedule.",
     ["caput/mpiarray.py", "caput/util/mpitools.py"],
     [("MPIArray.redistribute, blockwise send/receive", "caput/mpiarray.py"),
      ("Request completion helpers, split_all", "caput/util/mpitools.py")], note=MPI)

prop("P03", "Assembling distributed pieces yields the global object, in order",
     "Gathering a distributed array (to one process or to all) gives the global array with "
     "every element at its global position, and nothing on processes that are not the "
     "destination, for every memory layout of the pieces. Gathering sections at given starts, "
     "transposing a matrix held in row blocks into column blocks, and mapping a function over "
     "a list in parallel likewise give the serial result: each item is processed exactly once "
     "and results come in list order.",
     ["inputs", "configurations", "schedules"],
     "all shapes, axes, roots, layouts, element types, process counts, completion orders",
     "Tests gather C-ordered arrays of one shape on few processes; layout- and "
     "remainder-dependent errors and schedule-dependent ones are not sampled.",
     ["caput/mpiarray.py", "caput/util/mpitools.py"],
     [("MPIArray.gather / allgather", "caput/mpiarray.py"),
      ("gather_local / transpose_blocks / parallel_map", "caput/util/mpitools.py")], note=MPI)

prop("P04", "Global indexing reads and writes exactly the rank's share of the selection",
     "Indexing a distributed array with positions of the global array (integers, negative "
     "integers, slices with any start, stop and step in either direction, ellipsis) gives each "
     "process exactly those selected elements it holds, in selection order, and nothing where "
     "it holds none; assigning through such an index changes exactly those elements. A full "
     "slice of the distributed axis gives a distributed array again, and no such access needs "
     "communication.",
     ["inputs", "configurations"],
     "all global lengths, process counts, ranks, starts, stops, steps and other-axis indices",
     "Tests try a handful of slices at one process count; the element that goes missing depends "
     "on how the step lines up with the process boundary.",
     ["caput/mpiarray.py"],
     [("global_slice: resolution of a global index to a local one", "caput/mpiarray.py")])

prop("P05", "Arrays derived from a distributed array know how they are distributed",
     "Indexing the non-distributed axes, transposing, swapping axes, reshaping, copying, "
     "and wrapping a distributed array give exactly the "
     "rank's share of the same operation on the global array, and the result's distributed axis, "
     "global shape, local shape and offset describe that share. An operation that would move or "
     "mix the distributed axis in a way that cannot be described is refused.",
     ["inputs", "configurations"],
     "all ranks and shapes up to 3 dimensions, all positions of the distributed axis, all index "
     "kinds, all axis permutations and reshapes, any process count",
     "Tests derive a few arrays with one axis layout; the bookkeeping goes wrong only for "
     "particular combinations of index kinds, axis positions and empty processes.",
     ["caput/mpiarray.py"],
     [("MPIArray.__getitem__, __array_finalize__, transpose, swapaxes, reshape, copy",
       "caput/mpiarray.py")], note=MPI)

prop("P06", "Arithmetic on distributed arrays equals the computation on the global array",
     "An element-wise operation or reduction involving distributed arrays gives every process "
     "exactly its share of the result of the same operation on the global arrays (also through "
     "out= and in place), with correct axis, shape and offset. Operations whose result a process "
     "cannot compute from its share, such as operands distributed over different axes or "
     "accumulation over the distributed axis, raise an error rather than give a wrong answer.",
     ["inputs", "configurations"],
     "all shapes up to 3 dimensions, operand kinds, broadcasts, reduction axes, process counts",
     "Tests combine equal shapes; broadcasting that shifts the distributed axis, operands with "
     "length-one axes, and reductions with keepdims are a product space tests do not cover.",
     ["caput/mpiarray.py"],
     [("MPIArray.__array_ufunc__ and its output handling", "caput/mpiarray.py"),
      ("sum and other reductions", "caput/mpiarray.py")], note=MPI)

prop("P07", "Distributed file access moves exactly the selected elements",
     "Reading a dataset from a file as a distributed array, with any selection on any axis, "
     "gives every process exactly its share of the selected elements; writing a distributed "
     "array stores every element at its global position with the right type and shape. The "
     "result does not depend on the number of processes, on the distributed axis or on how the "
     "transfer is partitioned into bounded pieces, and empty shares and selections are fine.",
     ["inputs", "configurations"],
     "all shapes, selections (slices, position lists), distributed axes, element types, process "
     "counts and partition limits, HDF5 and zarr",
     "Tests never reach the 2 GB partition limit and use one or two selections; composing a "
     "selection with a process share and an IO partition has off-by-one errors only at "
     "particular alignments.",
     ["caput/mpiarray.py"],
     [("MPIArray.from_hdf5 / from_file / to_hdf5 / to_file", "caput/mpiarray.py"),
      ("_partition_io, _partition_sel, _reslice, _len_slice, _expand_sel", "caput/mpiarray.py")],
     note=MPI)

prop("P08", "Groups form one consistent tree, however paths and handles are spelled",
     "Creating, reading, deleting and listing groups and datasets through any handle and any "
     "spelling of a path (absolute or relative, with repeated or trailing slashes) acts on one "
     "shared tree: what was created under a path is found there through every other handle and "
     "nowhere else. Missing entries and paths which lead through a dataset raise KeyError and "
     "leave the tree unchanged, and every listing, length, name and parent agrees with it.",
     ["inputs", "histories"],
     "all histories of tree operations, all paths and all handles (groups, containers)",
     "Tests build one tree with plain paths; mistakes need a particular sequence of creations "
     "and deletions seen through an older handle, or an unusual path.",
     ["caput/memdata/_memh5.py"],
     [("_Storage, _BaseGroup, MemGroup path resolution and creation", "caput/memdata/_memh5.py"),
      ("MemDiskGroup delegation to its storage root", "caput/memdata/_memh5.py")])

prop("P09", "Copying, saving and loading reproduces the whole tree",
     "Copying a tree (in memory, into a file, from a file, between HDF5 and zarr, common or "
     "distributed over any number of processes) gives a tree with the same groups, datasets, "
     "element values, element types and attributes, restricted to exactly the requested "
     "selection, and the hints of which datasets are distributed are honoured. Copies share no "
     "data with the source unless asked to, and the source is left unchanged.",
     ["inputs", "configurations"],
     "all small trees, element types, selections, distributed axes, file formats, process counts "
     "and conversion options",
     "Tests save one tree with one option set; options, element types, formats and "
     "distribution interact, and only particular combinations lose something.",
     ["caput/memdata/_memh5.py", "caput/memdata/fileformats.py"],
     [("deep_group_copy, _distributed_group_to_file, _distributed_group_from_file",
       "caput/memdata/_memh5.py"),
      ("MemGroup.from_group/from_file/to_file, MemDiskGroup.save/from_file",
       "caput/memdata/_memh5.py"),
      ("HDF5 and Zarr formats", "caput/memdata/fileformats.py")], note=MPI)

prop("P10", "Attributes and string types survive copying and files",
     "An attribute written to a file and read back has the same value up to the documented forms "
     "(byte strings become text, numpy scalars Python ones, dictionaries round-trip through "
     "JSON), and copying from file to file keeps it. Converting the string fields of an element "
     "type changes exactly the string fields, in every nested compound type, sub-array and byte "
     "order, and converting back restores type and contents.",
     ["inputs"],
     "all attribute values built from the supported kinds, nested dictionaries, all compound "
     "types up to the stated nesting",
     "Tests use a few attributes and flat types; nesting, sub-arrays, padding and byte order "
     "multiply.",
     ["caput/memdata/_memh5.py", "caput/util/typeutils.py"],
     [("copyattrs and its JSON encoding", "caput/memdata/_memh5.py"),
      ("dtype conversion of unicode and byte strings", "caput/util/typeutils.py")])

prop("P11", "A locked file appears complete under its name or not at all",
     "While a file is written under a lock, its final name never shows a partial file: it appears "
     "by one atomic step after the body has succeeded, and not at all if the body fails or the "
     "process dies at any point. The lock exists from before the first write until after the "
     "last step and is removed on success and on failure; a temporary file left by a failure is "
     "removed unless it is to be preserved.",
     ["crash_points", "fault_sequences", "inputs"],
     "every crash point between file system operations, every point where the body fails, every "
     "option, with and without an existing file",
     "Tests run the success path and one exception; no test kills the process at each step.",
     ["caput/memdata/_io.py", "caput/memdata/fileformats.py"],
     [("lock_file", "caput/memdata/_io.py")])

prop("P12", "Datasets keep their contents when converted between common and distributed",
     "Turning a dataset from common to distributed over any axis, back to common, or "
     "redistributing it, through any handle and in any order, leaves the global dataset "
     "identical in contents, type, attributes, chunking and name, with every process holding the "
     "standard share of the requested axis (also when counted from the end). Other datasets and "
     "handles of the tree keep showing the current state.",
     ["inputs", "configurations", "histories"],
     "all shapes, axes, process counts, and histories of conversions",
     "Tests convert once on one process; wrong axes or lost properties need particular "
     "sequences, several processes and empty shares.",
     ["caput/memdata/_memh5.py", "caput/mpiarray.py"],
     [("dataset_common_to_distributed / dataset_distributed_to_common",
       "caput/memdata/_memh5.py"),
      ("MemDatasetDistributed.redistribute", "caput/memdata/_memh5.py")], note=MPI)

prop("P13", "Pipeline tasks get exactly the products made for them, in order",
     "Every product a task returns reaches each task that names its key as an input exactly "
     "once, in the order of production; a stage runs only with one product for each of its keys, "
     "paired by order, and required products are handed to the setup stage once. A product is "
     "the very object returned, with several keys each gets its own element of the result, a "
     "result whose number of elements does not fit the keys is refused, and nothing that no task "
     "asked for or that the key pattern excludes is delivered.",
     ["inputs", "histories", "configurations"],
     "all task networks, orders of tasks, numbers of iterations and kinds of results",
     "Tests run a few fixed pipelines; lost, duplicated or mixed up products need particular "
     "networks (several consumers, several keys, uneven numbers of iterations).",
     ["caput/pipeline/_pipeline.py"],
     [("Manager.runner, _check_task_output", "caput/pipeline/_pipeline.py"),
      ("Task._pipeline_next, _pipeline_queue_product", "caput/pipeline/_pipeline.py")])

prop("P14", "Each task runs setup once, then its iterations, then finish; pipelines end",
     "A task runs its setup once, after its requirements exist and before anything else, then "
     "iterates until it raises the stop signal or its producers have finished and its inputs are "
     "used up, then runs finish once and never again. With producers listed before their "
     "consumers the pipeline ends with every task finished, for all priorities and all points "
     "where tasks stop; among available tasks the one that runs is chosen by the documented "
     "priority.",
     ["histories", "configurations", "inputs"],
     "all task networks, orders, iteration counts and points where a task stops or fails",
     "Tests run a few fixed pipelines on one ordering; a task that is starved, run twice or "
     "never finished needs particular networks and stop points.",
     ["caput/pipeline/_pipeline.py"],
     [("Manager._next_task, _iter_tasks", "caput/pipeline/_pipeline.py"),
      ("Task._pipeline_is_available, _pipeline_advance_state, _pipeline_priority",
       "caput/pipeline/_pipeline.py")])

prop("P15", "A pipeline configuration is accepted exactly if it is consistent",
     "Reading a pipeline configuration succeeds exactly if every consumed key is produced, by "
     "exactly one task, the numbers of keys fit the arguments of the stages, every task type and "
     "parameter group exists and every parameter is known and valid; otherwise a "
     "configuration error is raised (pointing at the defective task) and nothing has run. Each "
     "task gets exactly the parameters of its groups, later ones overriding earlier ones, and "
     "its own copy of the recorded versions and configuration.",
     ["inputs", "programs", "configurations"],
     "all configuration documents, with any defect in any place, and all stage signatures",
     "Tests try a few broken documents; whether a given mistake in a given task is noticed, and "
     "as what kind of error, is not sampled.",
     ["caput/pipeline/_pipeline.py", "caput/config.py"],
     [("Manager.from_yaml_str, _setup_tasks, _validate_task_inputs, _get_task_from_spec",
       "caput/pipeline/_pipeline.py"),
      ("Task._setup_keys", "caput/pipeline/_pipeline.py")])

prop("P16", "Configured attributes hold the converted value given, else the default",
     "After reading a configuration every configured attribute of an object holds the converted "
     "value under its key, and otherwise its default; a value that cannot be converted or is "
     "outside the allowed range, options, length or type, an unknown key and a missing key (when "
     "those are checked) raise a configuration error naming the line of the block. Attributes "
     "which a subclass overrides follow the subclass, instances do not affect each other, and "
     "later assignments are converted in the same way.",
     ["inputs", "programs"],
     "all values, ranges, option and length limits, class hierarchies and key choices",
     "Tests check a few values of each kind; boundary values, overridden attributes and "
     "unconvertible values are not covered.",
     ["caput/config.py"],
     [("Property, Reader.read_config", "caput/config.py"),
      ("float_in_range, enum, list_type, logging_config", "caput/config.py"),
      ("SafeLineLoader, CaputConfigError", "caput/config.py")])

LLVM = ("symbolic execution of the compiled kernels (LLVM IR) and solver-driven execution of the "
        "built extension (z3)")

prop("P17", "Truncated values stay within the error asked for, with the spare bits cleared",
     "Bit truncation moves no finite value by more than the error given (absolute, relative to "
     "the value, from its inverse variance, or relative to the largest of its row), never changes "
     "its sign or makes it infinite, and rounds it, ties to even, to a multiple of the largest "
     "power of two not above twice that error. The array functions do so in place for every "
     "memory layout, element by element, and change nothing else.",
     ["inputs"],
     "all bit patterns of values and errors, all array layouts, weights and precisions",
     "Tests check a dozen values; an exponent at which the scaled error overflows, a tie or a "
     "sign needs one particular pair of bit patterns out of 2**128.",
     ["caput/util/truncate.hpp", "caput/util/truncate.pyx"],
     [("bit_truncate, bit_truncate_64, _bit_truncate_float, _bit_truncate_double",
       "caput/util/truncate.hpp"),
      ("bit_truncate_weights, bit_truncate_relative, bit_truncate_max_complex",
       "caput/util/truncate.pyx")], technique=LLVM)

prop("P18", "A weighted quantile is the value where the cumulated weight crosses the target",
     "The weighted quantile (and median) along the last axis is the value at which the weight "
     "cumulated in order of the values crosses the wanted fraction of the total; exactly between "
     "two values it is the lower one, the higher one or their mean, as asked. Elements without "
     "weight never count unless all are without (then all count the same); the inputs are not "
     "modified, whatever their type, shape and memory layout, and nothing outside them is read.",
     ["inputs"],
     "all data, weights, quantiles, methods, types, shapes and memory layouts",
     "Tests compare a few random rows, where ties, zero weights and the ends of the range "
     "practically never occur together.",
     ["caput/algorithms/median/weighted.pyx"],
     [("_quickselect, _quickselect_weight, _max_non_zero, _min_non_zero",
       "caput/algorithms/median/weighted.pyx"),
      ("quantile, weighted_median", "caput/algorithms/median/weighted.pyx")], technique=LLVM)

prop("P19", "Each moving median is the weighted median of exactly its window",
     "Every value of a moving weighted median, for 1- and 2-d data and any odd window, is the "
     "weighted median of the elements inside the window around it (cut at the edges): a value "
     "with no more than half of the weight on either side, and of two such values the lower, the "
     "higher or their mean, as asked. For no data and weights does it fail, read outside the "
     "data or depend on what was in earlier windows.",
     ["inputs", "histories"],
     "all data, weights, window sizes and methods; all sequences of insertions and removals",
     "Tests compare random data against a slow version for one method; other methods, equal "
     "values, zero weights and sums whose rounding disagrees need particular windows.",
     ["caput/algorithms/median/weighted.pyx", "caput/algorithms/median/MedianTree.hpp"],
     [("Tree::insert, remove, balance_path, weighted_median", "caput/algorithms/median/MedianTree.hpp"),
      ("moving_weighted_median, _mwm_1D, _mwm_2D", "caput/algorithms/median/weighted.pyx")],
     technique=LLVM)

prop("P20", "Reciprocals are zero only where too large, and fill the output array given",
     "invert_no_zero gives, element by element, the correctly rounded reciprocal (complex: to a few "
     "units in the last place), or zero where the reciprocal is too large for the type: no finite "
     "number gives an infinity or a warning, and NaN stays NaN. The result has the shape of the "
     "input; with an output array, of whatever memory layout, it is stored there and nowhere else.",
     ["inputs"],
     "all values of all types, all memory layouts of input and output",
     "Tests cover a random array and a few layouts; the value next to the threshold and an output "
     "which is a view need particular combinations.",
     ["caput/algorithms/_invert_no_zero/_invert_no_zero.pyx",
      "caput/algorithms/_invert_no_zero/__init__.py"],
     [("_invert_no_zero", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx"),
      ("invert_no_zero", "caput/algorithms/_invert_no_zero/__init__.py")], technique=LLVM)

prop("P21", "Concatenated time-ordered data is the wanted range of all pieces, in order",
     "Concatenating time-ordered containers or files gives, for the time axis and every "
     "time-ordered dataset asked for, exactly the samples [start:stop] of all pieces one after the "
     "other (with Python's meaning of negative and missing limits, and no sample when the range is "
     "empty), for any order of axes, in memory, into a file or distributed. All other data, maps, "
     "attributes and the history are those of the first piece; the inputs are not modified, and a "
     "reader selects exactly the samples whose times lie in the range given.",
     ["inputs", "histories"],
     "all numbers and lengths of pieces, all ranges, axis orders, file or memory, numbers of ranks",
     "Tests concatenate five pieces with two ranges; a range that starts or ends at a boundary, in "
     "a later piece or outside the data needs particular numbers.",
     ["caput/containers/tod.py"],
     [("concatenate, _start_stop_inds, _get_in_out_slice", "caput/containers/tod.py"),
      ("_copy_non_time_data", "caput/containers/tod.py"),
      ("TODReader.select_time_range, TODReader.read", "caput/containers/tod.py")])

prop("P22", "A new container has exactly the axes and datasets specified, from its sources",
     "A new container has every axis of its class, taken from the argument given for it or else "
     "copied with its attributes from the container named as source, and is refused if one is "
     "missing. It has exactly the datasets to be created at once (others on request), of the shape, "
     "type, chunks and distribution specified by the class and its bases, and the attributes of "
     "the source. Datasets copied from another container have its contents however either is "
     "distributed, and tables have the columns specified and one row per element of their axis.",
     ["inputs", "configurations"],
     "all specifications (inheritance, axes, distribution, chunks, tables), axis arguments, "
     "sources and numbers of ranks",
     "Tests construct a few fixed classes; which of several sources or base classes decides, and "
     "copies between differently distributed containers, depend on the combination.",
     ["caput/containers/_core.py"],
     [("Container.__init__, create_all_datasets, add_dataset", "caput/containers/_core.py"),
      ("Container.dataset_spec, axes, table_spec", "caput/containers/_core.py"),
      ("_copy_data, empty_like", "caput/containers/_core.py"),
      ("TableSpec", "caput/containers/_core.py")])

prop("P23", "Selections along named axes pick exactly those elements of every dataset",
     "A selection of an axis by slice, indices or mask, whether configured, given to a loader or to "
     "a filtered copy, gives for every dataset with that axis exactly the elements numpy indexing "
     "would, in order, along that axis only, and datasets without it are complete. This holds for "
     "several axes at once, for containers in memory or on disk, common or distributed over any "
     "number of ranks, and the arguments given are not modified.",
     ["inputs", "configurations"],
     "all slices, index lists and masks, numbers of selected axes, axis orders, files, ranks",
     "Tests select a single range or index list; which elements come back depends on the bounds, "
     "the step, the order of the axes and the distribution together.",
     ["caput/containers/_core.py", "caput/pipeline/tasklib/io.py", "caput/memdata/_memh5.py"],
     [("copy_datasets_filter, _apply_sel", "caput/containers/_util.py"),
      ("SelectionsMixin._resolve_sel, _parse_range, _parse_index", "caput/pipeline/tasklib/io.py"),
      ("Container._make_selections, from_file", "caput/containers/_core.py")])

prop("P24", "Outputs of container tasks are labelled, checked and saved as configured",
     "Every output of a container task has the tag of its inputs (or the one its format says), the "
     "attributes and history configured, whichever of its inputs has them. An output with numbers "
     "which are not finite is reported, dropped or refused exactly as configured, on all ranks "
     "alike, and saved outputs are found, complete, in the file the name pattern says, each "
     "output in its own place; outputs which are no containers are passed on.",
     ["inputs", "configurations"],
     "all tag and attribute formats, saving options, inputs, outputs and data, numbers of ranks",
     "Tests run one task with few options; labels, dropped outputs and file names depend on "
     "combinations of options, iterations and where the offending number is.",
     ["caput/pipeline/tasklib/base.py"],
     [("ContainerTask.next, finish, _process_output", "caput/pipeline/tasklib/base.py"),
      ("ContainerTask._save_output, _nan_process_output, _interpolate_labels", "caput/pipeline/tasklib/base.py"),
      ("SetMPILogging, LoggedTask", "caput/pipeline/tasklib/base.py")])

prop("P25", "File tasks deliver exactly the files listed, in order, as selected",
     "A list of names, patterns and lists of them stands for exactly the files it names and "
     "matches, in order, and a name which does not exist is refused. The loading tasks deliver each "
     "of these files once, in order (or the one belonging to the attributes of an input), with "
     "the selections, tag and distribution configured, and then end. Tasks which read and write "
     "files write exactly one file per output, with its contents.",
     ["inputs", "configurations"],
     "all sets of files, lists and patterns, options, numbers of iterations",
     "Tests cover single lists; nested lists, empty matches and files selected by attribute depend "
     "on which files exist and on the sequence of inputs.",
     ["caput/pipeline/tasklib/io.py", "caput/pipeline/extensions/_extensions.py"],
     [("list_or_glob, list_of_filelists, list_of_filegroups", "caput/pipeline/tasklib/io.py"),
      ("BaseLoadFiles, LoadFilesFromParams, LoadFilesFromAttrs, LoadFilesAndSelect",
       "caput/pipeline/tasklib/io.py"),
      ("_OneAndOne, SingleBase, IterBase", "caput/pipeline/extensions/_extensions.py")])

prop("P26", "Random numbers fill every element once, reproducibly, on all threads and ranks",
     "The multithreaded generator accepts the calls numpy's accepts and returns the shape and type "
     "numpy returns; every element of the result (or of the output array given, whatever its layout) "
     "is filled with a number of its own, for every size and number of threads. The numbers depend on "
     "the seed and number of threads only, not on the order in which the threads run. Tasks draw from "
     "streams which are different on every rank and in every class, and the same in every run with a seed.",
     ["inputs", "schedules", "configurations"],
     "all sizes, thread counts, forms of call, output layouts, thread orders, seeds and ranks",
     "Tests check a few sizes and types; an unfilled remainder, an output array of another layout or "
     "another type for large sizes needs particular arguments.",
     ["caput/algorithms/random.py", "caput/pipeline/tasklib/random.py"],
     [("MultithreadedRNG._build_method", "caput/algorithms/random.py"),
      ("RandomTask.__init__, rng, local_seed", "caput/pipeline/tasklib/random.py")])

prop("P27", "Flow tasks deliver every product once, in order, grouped and copied",
     "In any pipeline of flow tasks every product arrives exactly once and in order: passed on as the "
     "same object, copied as an equal and independent one, gathered with the products that came with "
     "it, or collected in complete groups (or all together at the end). Nothing is forwarded before "
     "what is waited for has arrived, and what is written about versions and configuration is what "
     "the pipeline was run with.",
     ["configurations", "inputs", "schedules"],
     "all chains of flow tasks, group sizes, kinds and numbers of products, priorities",
     "Tests cover single tasks with fixed inputs; lost or shared products show in combinations of "
     "tasks, group sizes and numbers of inputs.",
     ["caput/pipeline/tasklib/flow.py", "caput/pipeline/tasklib/debug.py",
      "caput/pipeline/extensions/_pytools.py"],
     [("AccumulateList, GatherInputs, MakeCopy, WaitUntil, Delete", "caput/pipeline/tasklib/flow.py"),
      ("Input, Output", "caput/pipeline/extensions/_pytools.py"),
      ("SaveModuleVersions, SaveConfig, Print", "caput/pipeline/tasklib/debug.py")])

prop("P28", "The truncation task changes only what it may, within each element's allowance",
     "The truncation task truncates exactly the datasets its configuration, or else the class of the "
     "container, asks for, each element to the error its own weight allows (or to the relative "
     "precision, where there is no weight). The weights belong to the data by the names of their axes, "
     "whatever their order, for real and complex data, common or distributed over any number of "
     "ranks. All other data, the options and the weights are unchanged.",
     ["inputs", "configurations"],
     "all options and presets, types, axis orders, weights (also zero), numbers of ranks",
     "Tests truncate two fixed containers; weights of another axis order, with zeros or for parts of "
     "the axes need particular specifications.",
     ["caput/pipeline/tasklib/io.py"],
     [("Truncate._get_params, _get_weights, process", "caput/pipeline/tasklib/io.py")])

prop("P29", "Containers are zipped exactly once, completely, and removed only after that",
     "Every container given to the zipping tasks is zipped by exactly one rank, for any distribution of "
     "ranks over hosts, into an archive which reads back as the container, under its own name. The "
     "original is removed only if that was asked for and after its archive is complete; whichever "
     "archive fails, no contents are lost, nothing else is removed and the failure is reported. "
     "Waiting for the jobs ends, however much they print.",
     ["configurations", "fault_sequences"],
     "all assignments of ranks to hosts, numbers, names and tags of containers, failing archives",
     "There are no tests of these tasks; lost containers need several hosts, a failing archiver or "
     "particular names.",
     ["caput/pipeline/tasklib/io.py"],
     [("ZipZarrContainers.setup, process", "caput/pipeline/tasklib/io.py"),
      ("SaveZarrZip.next, WaitZarrZip.finish", "caput/pipeline/tasklib/io.py")])

prop("P30", "Queued jobs run exactly the configured pipeline, once, and report how it ended",
     "Queueing a configuration makes a job script which has the resources configured and runs that "
     "pipeline once, in its environment and directory, leaving its output and log in the final "
     "directory and its status (running, finished or crashed, however the job ends) beside them. An "
     "existing job is queued again never, always, or exactly if its latest run did not finish, as asked; what is "
     "invalid is refused, reported, and leaves no job behind. A template runs or queues every "
     "combination of its values once.",
     ["configurations", "histories", "fault_sequences"],
     "all cluster configurations and options, histories of queueing and running, ways a job can end",
     "There are no tests of the scheduler; its scripts only run on clusters, and wrong decisions need "
     "histories of failed and repeated jobs.",
     ["caput/pipeline/runner/_scheduler/__init__.py", "caput/pipeline/runner/_scheduler/_default_systems.toml",
      "caput/pipeline/runner/_core.py", "caput/pipeline/runner/_cli.py"],
     [("queue, _resolve_system_config, _create_job_directories, _resolve_job_script", "caput/pipeline/runner/_scheduler/__init__.py"),
      ("the scripts", "caput/pipeline/runner/_scheduler/_default_systems.toml"),
      ("_from_template, template_run", "caput/pipeline/runner/_core.py")])

prop("P31", "Rows written by several processes make up the array, and change nothing else",
     "When the processes of a communicator write their rows of an array into one file, a dataset "
     "of the right shape and type appears in it which equals the whole array, for any number of "
     "processes (also with no rows), types and memory layouts. Datasets already in the file are "
     "unchanged, and writing a buffer into a region of a file changes exactly its bytes, or is refused "
     "if it does not fit.",
     ["inputs", "configurations"],
     "all shapes, types, layouts, numbers of ranks, offsets and sizes of regions",
     "There are no tests of these functions; wrong offsets need several ranks and elements of several bytes.",
     ["caput/util/mpitools.py"],
     [("parallel_rows_write_hdf5, allocate_hdf5_dataset, lock_and_write_buffer", "caput/util/mpitools.py")],
     note=MPI)

prop("P32", "Times convert between all their forms exactly, alone or in arrays",
     "A unix time, the datetimes (in any time zone, or none for UTC), time string and Skyfield time of the same moment "
     "convert into one another, up to the precision of the form, with dates of the day they lie in "
     "and seconds since its start; leap seconds between two times are counted, and a rotation angle leads back "
     "to its time across them. Conversions of lists, tuples and arrays (also empty) give "
     "arrays with what each element gives, and scalars for scalars.",
     ["inputs"],
     "all times within centuries for the calendar, boundary dates, time zones and forms for the rest",
     "The tests of times need data which is downloaded, and use a few fixed times in UTC.",
     ["caput/astro/time.py", "caput/astro/skyfield.py", "caput/util/arraytools.py"],
     [("unix_to_datetime, datetime_to_unix, datetime_to_timestr, timestr_to_datetime, ensure_unix, time_of_day, "
       "leap_seconds_between, era_to_unix, unix_to_era, naive_datetime_to_utc", "caput/astro/time.py"),
      ("unix_to_skyfield_time, skyfield_time_to_unix", "caput/astro/skyfield.py"),
      ("vectorize, scalarize, listize", "caput/util/arraytools.py")])

prop("P33", "Nested objects and index maps compare equal exactly if their contents are",
     "Dictionaries, lists, tuples, scalars, strings and arrays, nested in any way, compare equal exactly if "
     "they have the same structure, shapes and values (where NaN equals NaN); arrays of different "
     "classes, and arrays and scalars, are different. The comparison is symmetric and changes nothing, "
     "and the index maps of containers compare in the same way.",
     ["inputs"],
     "all pairs of objects within the bounds",
     "Tests compare a dozen fixed pairs.",
     ["caput/util/objecttools.py", "caput/memdata/_memh5.py"],
     [("allequal, _assert_equal", "caput/util/objecttools.py"), ("ro_dict.__eq__", "caput/memdata/_memh5.py")])

prop("P34", "Stellar days and times convert exactly; each rise, set and transit is found once",
     "An observer's stellar days count the turns of the Earth since day zero, with the stellar angle as their "
     "fraction, and convert back to the same times. Each transit, rise and set of a source within "
     "an interval is given exactly once, in order and with its direction, if the search step is shorter than the time "
     "between two of them. Intervals and steps which make no sense are refused.",
     ["inputs"],
     "all times, places, positions of the events, intervals and steps within the bounds",
     "Tests use a few sources on fixed days, and need an ephemeris from the network.",
     ["caput/astro/observer.py", "caput/astro/skyfield.py"],
     [("_solve_all, _fixup_interval_and_step, unix_to_lsa, lsa_to_unix, lsd_zero, unix_to_lsd, lsd_to_unix, transit_times, rise_set_times, rise_times, set_times, _sr_work", "caput/astro/observer.py")])

prop("P90", "Positions of bodies are those of the sky",
     "The observer's positions of a source, and the conversions between celestial frames, are those of the sky.",
     ["inputs"], "all sources, observers and times",
     "Tests use a few sources.", ["caput/astro/observer.py"], [("Observer.object_coords, cirs_radec", "caput/astro/observer.py")],
     na="needs an ephemeris (de421.bsp) which is not available offline; the frames are transcendental floating-point functions of Skyfield, which no solver here can encode")

prop("P91", "Spherical coordinate transforms invert one another",
     "Rotations and projections on the sphere, and the spherical Bessel functions, have their geometric values.",
     ["inputs"], "all angles", "Tests use fixed angles.",
     ["caput/astro/coordinates/spherical.py", "caput/astro/coordinates/bessel.py", "caput/astro/coordinates/_spherical.pyx"],
     [("sph_to_ground, ground_to_sph", "caput/astro/coordinates/spherical.py")],
     na="the claims are about sines, cosines and Bessel series in floating point; SMT has no theory of them, and uninterpreted ones prove nothing about the values")

prop("P92", "FFTs, filter banks and profilers give the results of the libraries they wrap",
     "The FFT wrappers equal numpy's transforms, the filter bank equals its definition, and profilers report the resources used.",
     ["inputs"], "all arrays", "Tests use fixed arrays.",
     ["caput/algorithms/fft/fftw.py", "caput/util/pfb.py", "caput/util/profiler.py"],
     [("FFTW", "caput/algorithms/fft/fftw.py"), ("PFB", "caput/util/pfb.py")],
     na="the work is done by FFTW, scipy and the operating system, whose code is not part of the repository; what remains is the choice of transcendental window values")
