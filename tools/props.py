"""The properties and how they are decided (source of properties.jsonl / MANIFEST.json)"""

EX = "src/fluidimage/executors/"
TO = "src/fluidimage/topologies/"
NA = []
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        anchors["observe_at"] = observe
    PROPS.append(
        dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=anchors, technique=technique, level=level, note=note)
    )


SCHED = "explicit-state / delay-bounded exploration of thread and task interleavings of the real executors"

P(
    "P01",
    "Every item goes through every processing step exactly once",
    "When a computation made of connected steps is run by an in-process executor (sequential, asynchronous, or the one used inside multi-process runs), every input item is processed exactly once by every step it has to go through and every expected result is produced, whatever the order in which tasks, wake-ups and threads are scheduled. The computation always ends, and it never ends before all items have been processed.",
    ["schedules", "inputs", "configurations"],
    "every interleaving of task starts, polling wake-ups and thread starts/completions; every small topology shape (chains, routing, joins of couples, no output) and number of items, including none; every number of workers",
    "The tests run each executor once on a few images with the schedule the machine happens to produce; a premature stop or a lost item needs a specific interleaving.",
    [EX + "exec_async.py", EX + "exec_async_sequential.py", EX + "exec_sequential.py", EX + "exec_async_seq_for_multi.py", TO + "base.py"],
    [("end detection", EX + "exec_async.py: update_has_to_stop"), ("polling loops of the works", EX + "exec_async.py: def_async_func_work_io, def_async_func_work_cpu"), ("queues", TO + "base.py: Queue.pop_first_item"), ("sequential loop", EX + "exec_sequential.py: _run_works")],
    SCHED, "model_checking",
    "bounds: up to 3 items x 3 steps for exhaustive interleavings; complete state graph for the smallest configurations, delay-bounded (1 to 3 deviations) otherwise",
    [("busy counters", "works popped but not finished", EX + "exec_async.py")],
    ["functions of the works", "topology.results", "return of compute()"],
)
P(
    "P02",
    "A failing step only affects the items that depend on it and is reported",
    "When the function of a step raises an exception for some items, these items are not processed by the following steps, all the other items are fully processed as if nothing had happened, the computation ends normally and each failure is written in the log directory of the computation. When the user asks to stop at the first error, the exception is raised to the caller.",
    ["fault_sequences", "schedules", "configurations"],
    "every single failure and every pair of failures (step, item) of the small topologies, for each executor, under every schedule with a bounded number of deviations",
    "The tests inject one fixed failure in one example topology with the natural schedule.",
    [EX + "exec_async.py", EX + "exec_async_sequential.py", EX + "exec_async_multiproc.py", EX + "exec_async_servers.py", EX + "servers.py", EX + "exec_sequential.py", EX + "base.py", TO + "base.py"],
    [("propagation of exceptions", TO + "base.py: Work.check_exception"), ("log of exceptions", EX + "base.py: log_exception"), ("capture", EX + "exec_async.py: async_run_work_io, async_run_work_cpu")],
    "exhaustive fault sets x delay-bounded exploration of schedules of the real executors", "model_checking",
    "failures are ordinary exceptions; <= 2 failures, <= 3 items; the server executors are not required to write an exception file for steps run by the servers",
)
P(
    "P03",
    "Concurrency and queue limits are respected and never block the computation",
    "With an asynchronous executor, the number of computing steps (and, separately, of input/output steps) executed at the same time never exceeds the configured number of workers, and the number of finished items waiting for their next step never exceeds the configured queue limit by more than the items already being processed. Whatever these limits are (at least one), the computation reaches its end.",
    ["schedules", "configurations"],
    "every reachable state under every schedule with a bounded number of deviations; every combination of small worker and queue limits",
    "Tests never observe how many works run at the same time nor the queue lengths; an overrun needs two wake-ups in the same scheduler batch.",
    [EX + "exec_async.py", EX + "exec_async_sequential.py", EX + "exec_async_multiproc.py", EX + "exec_async_servers.py"],
    [("limits tested before launching a work", EX + "exec_async.py: def_async_func_work_io, def_async_func_work_cpu"), ("number of servers", EX + "exec_async_servers.py: get_available_worker")],
    SCHED + " with state invariants", "model_checking",
    "limits 1 to 3, <= 4 items exhaustively (delay bound 1 or 2), 7 to 12 items with the FIFO schedule",
)
P(
    "P04",
    "Delegating work to servers or processes loses and duplicates nothing",
    "When computing steps are delegated to worker servers or to one process per item, each item is computed exactly once, its result is attached to the right item and goes on to the following steps, and the computation ends only when all results are back. This holds whatever the relative speeds of the client, of the servers and of the communications. With one process per item, a process which dies only loses its item, which is reported as failed, and the computation still ends.",
    ["schedules", "configurations"],
    "every interleaving, with a bounded number of deviations, of the client loop, its threads, the server loops and their threads; 1 or 2 servers; with the real processes, every write of the main thread extended until a process is started, and every death of one or two processes",
    "The tests run the real processes on one machine: slow sends or late registrations of a job, which make the client believe that everything is done, do not happen there.",
    [EX + "exec_async_servers.py", EX + "servers.py", EX + "exec_async_multiproc.py"],
    [("registration of jobs", EX + "servers.py: Worker"), ("end detection", EX + "exec_async_servers.py: update_has_to_stop"), ("choice of the server", EX + "exec_async_servers.py: get_available_worker"), ("server loop", EX + "servers.py: WorkerServerMultiprocessing"), ("process per item", EX + "exec_async_multiproc.py: async_run_work_cpu")],
    "delay-bounded exploration of client/server interleavings of the real code under a controlled scheduler", "model_checking",
    "reliable pipes, no killed server; <= 2 servers, <= 3 items exhaustively (delay bound 1 or 2)",
)
P(
    "P05",
    "Splitting a computation among processes partitions the work",
    "When a computation is split among processes, every selected item (image, couple of images, range of images) that is to be computed is given to exactly one process, with the same meaning as in the unsplit computation (same images in the same order for each item), nothing outside the selection is given to any process, and the shares are balanced within one item (images sharing the same first index are kept together when the input is a set of images with two indices). This holds for any selection of the series or images, any number of processes and any set of already computed results in the complete mode.",
    ["inputs", "configurations"],
    "every range up to 12 elements with steps 1 to 5, every list length, 1 to 8 parts; every small directory (1 or 2 indices, holes) x selection (start, stop, step, subset strings) x number of processes x set of existing results",
    "The tests split one image directory with one selection; an off-by-one or a lost last item appears only for some lengths, steps and numbers of processes.",
    [TO + "splitters.py", EX + "multi_exec_async.py", EX + "multi_exec_subproc.py", TO + "base.py", TO + "piv.py", TO + "preproc.py", TO + "bos.py", TO + "optical_flow.py", TO + "mean.py"],
    [("balanced ranges and lists", TO + "splitters.py: split_range, split_list"), ("splitters", TO + "splitters.py: SplitterFromSeries, SplitterFromImages"), ("selection by a process", TO + "base.py: fill_queue_paths, init_series")],
    "exhaustive enumeration of selections x numbers of parts x result sets through the real splitters and topologies", "exploration",
    "up to 8 images; the parameters of each process are reloaded from their xml file as in a real run",
)
P(
    "P06",
    "Multi-process runs give the sequential results and contain the faults",
    "A computation run by several processes produces the same set of result files with the same content as the sequential computation, whatever the executor and the number of processes (also when there are more processes than items). An exception in the processing of an item prevents only the results which depend on it. If a process dies, the main process still ends, closes the computation properly (no lock file left) and the shares given to the other processes are complete.",
    ["inputs", "configurations", "fault_sequences"],
    "every topology with a splitter, 1 to 6 items, 1 to 4 processes, every multi-process executor; every single fault (exception, exit, kill) at every item and pairs of faults",
    "The tests run each multi-process executor once with 2 processes without faults, and only look at the number of results.",
    [EX + "multi_exec_async.py", EX + "multi_exec_subproc.py", EX + "exec_async_seq_for_multi.py", EX + "base.py", TO + "splitters.py", "src/fluidimage/run_from_xml.py"],
    [("start and wait for the processes", EX + "multi_exec_async.py: start_processes, wait_for_all_processes"), ("subprocesses from xml files", EX + "multi_exec_subproc.py: launch_process"), ("end of the job", EX + "base.py: _reset_std_as_default, _finalize_compute")],
    "exhaustive enumeration of configurations and of fault placements on the real processes", "fault_enumeration",
    "real processes; the interleavings of the processes are those of the operating system",
)
P(
    "P07",
    "Complete mode computes exactly the missing results and nothing else",
    "With saving.how = complete, exactly the selected items whose result does not exist yet are computed, the existing results are not modified, and the new results have the content that a complete computation would have given. After any history of computations with failing items, deletions of results and additions of images, one complete computation without failure leads to the full set of results, and a second one computes nothing.",
    ["inputs", "histories", "configurations"],
    "every subset of existing results of up to 5 items, for each topology (PIV, BOS, image to image, preprocessing, optical flow) and several executors; every history of 2 or 3 operations",
    "The tests remove one result and count the results; which results are recomputed depends on the subset, the selection and the neighbouring items sharing images.",
    [TO + "base.py", TO + "piv.py", TO + "bos.py", TO + "preproc.py", TO + "optical_flow.py", TO + "image2image.py", TO + "splitters.py", "src/fluidimage/data_objects/piv.py", "src/fluidimage/calcul/fft.py"],
    [("choice of the items", TO + "base.py: fill_queue_paths, compute_indices_to_be_computed"), ("names of the results", "src/fluidimage/data_objects/piv.py: get_name_piv, get_name_bos"), ("removal of computed series", TO + "base.py: init_series")],
    "exhaustive enumeration of result sets and bounded histories on the real topologies, with an explicit model of the directory", "exploration",
    "<= 5 items; a result exists when its file exists (interrupted savings are the subject of P08); surface tracking excluded (recorded finding)",
)
P(
    "P08",
    "Interrupted or failing savings never corrupt the set of results",
    "Whatever the moment at which a computation is interrupted (crash of the process before or in the middle of any write) or at which the file system refuses an operation (disk full), each result file is afterwards either absent or complete, the results computed before are still there and intact (or, with recompute, completely replaced), the computation does not hang, the record of the job never announces a result which does not exist, and one computation in the complete mode then produces exactly the missing results with the right content and is closed properly.",
    ["crash_points", "fault_sequences", "configurations"],
    "every file system operation made below the result directory by the computation (result, job and log files), with 4 kinds of faults, for several topologies, executors, saving modes and sets of existing results; pairs of crashes in the thorough tier",
    "The tests never interrupt a computation nor make a write fail; the partial files need a crash between two specific writes.",
    ["src/fluidimage/util/util.py", TO + "image2image.py", TO + "mean.py", "src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", EX + "base.py"],
    [("saving of the results", "src/fluidimage/data_objects/piv.py: HeavyPIVResults.save, MultipassPIVResults.save"), ("images", TO + "image2image.py: save_image; src/fluidimage/data_objects/preproc.py: PreprocResults.save"), ("which results exist", TO + "base.py: fill_queue_paths"), ("job files", EX + "base.py: _save_job_data, _save_lock_file")],
    "exhaustive crash-point and torn-write enumeration on the real code (system calls intercepted by a preloaded library)", "fault_enumeration",
    "crash of the processes only (data already written is kept); surface tracking excluded; fault points numbered per process",
)
P(
    "P09",
    "Results go to the directory asked by the user; nothing else is touched",
    "The directory in which the results are saved is the one defined by the parameters (given path, or input path and postfix): with new_dir, and when the user answers n, it is a directory which did not exist before (the default directory itself for new_dir if it does not exist), even if several computations are started simultaneously; with complete, recompute and the answers c and r (lower or upper case, invalid answers being asked again), the existing directory is used; with s nothing is done. The other existing directories and the unrelated files are never modified, and all the results of a computation are in this single directory, whatever the executor.",
    ["inputs", "configurations", "schedules"],
    "every saving mode x form of the path x set of existing directories x sequence of answers up to 3 lines, all executors end to end; every interleaving with up to 2 preemptions (at each source line) of simultaneous computations asking for a new directory",
    "The tests only use complete and recompute with the default path and never answer questions nor start two computations simultaneously.",
    [TO + "base.py", EX + "multi_exec_subproc.py", EX + "servers.py", EX + "base.py"],
    [("choice of the directory", TO + "base.py: prepare_path_dir_result"), ("parameters given to the subprocesses and servers", EX + "multi_exec_subproc.py: _init_num_expected_results; " + EX + "servers.py: WorkerServerMultiprocessing")],
    "exhaustive enumeration of configurations and answers, and of line-level interleavings of simultaneous constructions of the real topologies", "exploration",
    "threads stand for processes in the concurrent cases (they share only the file system there); preemption bound 2",
)
P(
    "P10",
    "Each computation has its own record and leaves the session as it was",
    "Each computation which has something to compute creates exactly one job directory of its own, different from all the others even when computations start in the same second; it contains the parameters of this computation, its description with the exact number of expected results, the list of the results really obtained and the end time; its lock file exists during the whole processing and is removed at the end, also when the computation stops because of an exception, and the failures are logged in the log directory of their own computation. A computation with nothing to compute creates no job. Afterwards the standard streams, the logger handlers and the open files are as before.",
    ["histories", "configurations", "fault_sequences"],
    "every history of 1, 2 or 3 computations over executors x saving modes x failing items x stop at the first error, within one process and one directory",
    "The tests run one computation per directory and do not look at the job directory nor at the state of the session after failures or empty computations.",
    [EX + "base.py", EX + "exec_sequential.py", EX + "exec_async.py", EX + "exec_async_seq_for_multi.py", EX + "multi_exec_async.py", EX + "multi_exec_subproc.py", TO + "base.py", "src/fluidimage/util/log.py"],
    [("names of the job and log", EX + "base.py: _init_log_path"), ("lock", EX + "base.py: _save_lock_file, _release_lock"), ("job data", EX + "base.py: _save_job_data, _save_results_names"), ("streams", EX + "base.py: _reset_std_as_default")],
    "exhaustive exploration of bounded histories of computations on the real code with an explicit model of the record", "exploration",
    "histories of up to 3 computations (6 identical ones), 2 or 3 images",
)
P(
    "P11",
    "The monitor shows the real state of the last computation at any time",
    "The monitoring application, whenever it is started and whatever is being written by the computation when it looks at the files, shows the last computation of the directory: it never fails, the number of results displayed never decreases, is never more than the number announced and never less than what can be read. When it stops polling, it displays the final state (number of results really obtained, not running, total duration until the end time). It shows the executor, the expected number of results and all the parameters of this computation with their documentation, for each topology and executor.",
    ["schedules", "histories", "configurations"],
    "all the states of the job directory during computations by one process, and all the combinations of the states of two processes; in each state, the files changing to the next or last state after each access of the monitor, at its start and at each update; all the topologies x executors x outcomes",
    "The only test opens the monitor after the end of computations without failure and looks at no value.",
    ["src/fluidimage/gui/monitor.py", "src/fluidimage/executors/base.py", "src/fluidimage/executors/exec_async.py", "src/fluidimage/executors/exec_async_seq_for_multi.py", "src/fluidimage/executors/exec_sequential.py"],
    [("reader", "src/fluidimage/gui/monitor.py: MonitorApp"), ("writers", "src/fluidimage/executors/base.py: _save_job_data, _save_results_names, _release_lock")],
    "explicit-state exploration of the real monitor over the recorded states of real computations (product of the states of the processes)", "model_checking",
    "an access to a file by the monitor is atomic; two computations do not start in the same second; number of results not considered for surface tracking and for the mean with several processes",
    None,
    ["MonitorApp (textual application, headless)", "job directories"],
)
P(
    "P12",
    "Images are assembled in the right groups whatever the schedule",
    "In the topologies working on groups of images (PIV, optical flow, preprocessing of subsets, surface tracking), each group selected by the parameters is processed exactly once with exactly its own images, in the right order (with the preprocessed images if a preprocessing function is used, and with the corrected phase of the previous frame for surface tracking), whatever the order in which readings, preprocessings and computations start and finish. A failing image only removes the groups which depend on it, no image still needed is dropped, and nothing is left in the queues at the end.",
    ["schedules", "inputs", "fault_sequences"],
    "every interleaving of the starts and ends of the steps for each item and of the calls of the global works, up to 2 or 3 items processed at the same time; several selections with overlapping groups, one or two indices; every failing image or pair of failing images",
    "The tests run each topology with the natural order of completion and readable images; a group made with a wrong or too early removed image needs a specific order or a failure.",
    [TO + "piv.py", TO + "preproc.py", TO + "surface_tracking.py", TO + "optical_flow.py", TO + "base.py", "src/fluidimage/util/util.py"],
    [("couples of images", TO + "piv.py: make_couples"), ("subsets of images", TO + "preproc.py: make_subsets"), ("chain of phases", TO + "surface_tracking.py: make_couples"), ("names in queues", TO + "base.py: Queue.is_name_in_values"), ("reading", "src/fluidimage/util/util.py: imread")],
    "explicit-state exploration of all the schedules of the real works (non deterministic executor)", "model_checking",
    "<= 5 images (6 in the thorough tier); numerical functions replaced by symbolic ones; steps take the first item of their queue",
    [("queues", "items waiting for the next step", TO + "base.py")],
    ["topology.results", "queues at the end"],
)
P(
    "P13",
    "The user's image function is applied once to each image and used",
    "When a computation (PIV, BOS, optical flow, preprocessing, surface tracking, image to image) is asked with a function or a class of the user, given as a Python object which can be imported or by its name, with the arguments of the class, this function is called exactly once for each image used by the groups to be computed (in the complete mode, for the other images it is not called; with several processes, at most once per process), with the name of this image and the content of its file. The results are those which the same computation without function gives for images already transformed; for image to image, the images saved are the images returned, whatever their type (integers or floats of any size, up to the precision of the file), with one file per image. A failure of the function for an image only removes the groups which use it.",
    ["inputs", "configurations", "fault_sequences"],
    "topologies x forms of the function and arguments x selections (overlapping groups, one or two indices) x executors x types of images; every set of results already there; a failure for every image; every type of the images returned x file formats",
    "The tests use one function with one selection and do not look at the results; functions given as objects with PIV, 16 bits and float64 images and the complete mode with float images are never tried.",
    ["src/fluidimage/works/image2image.py", "src/fluidimage/image2image.py", TO + "image2image.py", TO + "piv.py", TO + "bos.py", TO + "preproc.py", TO + "surface_tracking.py", "src/fluidimage/util/util.py"],
    [("function and arguments", "src/fluidimage/works/image2image.py: init_im2im_function, get_im2im_function_from_params"), ("step applying the function", TO + "piv.py, bos.py, preproc.py, surface_tracking.py, image2image.py: __init__"), ("saving", "src/fluidimage/util/util.py: imsave"), ("series", "src/fluidimage/image2image.py: apply_im2im_filter")],
    "exhaustive enumeration of bounded configurations, result sets and failures on the real code, against the computation of images transformed beforehand and the record of all the calls", "exploration",
    "3 to 6 images; the reference image of a BOS computation is also processed once by each server; the schedules of these computations are explored by P12",
    None,
    ["calls of the function of the user", "result directory"],
)
P(
    "P14",
    "The mean image is the exact mean of the selected images",
    "The result of the mean image topology is the mean of the selected readable images (each counted exactly once, sums without overflow, truncated to the type of the images), and it does not depend on the order in which the images are read nor on the way they are shared among processes. An unreadable image does not prevent the mean of the other images.",
    ["schedules", "inputs", "fault_sequences"],
    "every interleaving of the readings and of the calls of the reduction for up to 5 images (21 with atomic readings), 8 and 16 bits images reaching the maximum values; every failing image or pair; several partitions among up to 6 processes",
    "The tests compute one mean with a few images and only check the number of images; lost or doubly counted images in the tree of partial sums depend on the number of images and on the schedule.",
    [TO + "mean.py", TO + "base.py"],
    [("partial sums", TO + "mean.py: main, reduce_queue_tmp_arrays4, reduce_queue_tmp_arrays2"), ("final reduction", TO + "mean.py: final_seq_work")],
    "explicit-state exploration of all the schedules of the real works, all the reachable partial sums being given to the real final reduction", "model_checking",
    "<= 5 images with concurrent readings, <= 21 images (33 thorough) with atomic ones; integer images",
    [("tmp_arrays", "partial sums and number of images", TO + "mean.py")],
    ["topology.result", "image saved"],
)
P(
    "P16",
    "A work gives the same result for an input whatever it computed before",
    "The result of the calcul method of a work (PIV with one or several passes and each correlation method, BOS, optical flow, preprocessing, surface tracking) only depends on its parameters and on its input: it is the same for a new work object and for one which has already processed other images (other particles, other types, degenerate or uncorrelated images, images of another size). The arrays given by the caller are not modified, and a result already obtained is not modified by the following computations.",
    ["histories", "inputs", "configurations"],
    "every sequence of 3 computations (4 in the thorough tier) over an alphabet of 3 to 5 inputs, for 14 PIV configurations, BOS, optical flow, 11 sets of preprocessing tools and 5 surface tracking configurations",
    "The tests compute one result per work object; a state leaking from one image to the next (buffers, grids, references modified in place) needs a specific sequence.",
    ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/multipass.py", "src/fluidimage/works/piv/fix.py", "src/fluidimage/works/bos.py", "src/fluidimage/works/optical_flow.py", "src/fluidimage/works/preproc/__init__.py", "src/fluidimage/works/surface_tracking.py", "src/fluidimage/calcul/fft.py", "src/fluidimage/calcul/correl.py"],
    [("PIV passes", "src/fluidimage/works/piv/singlepass.py: BaseWorkPIV.calcul, WorkPIVFromDisplacement.calcul"), ("buffers of the FFT", "src/fluidimage/calcul/fft.py: FFTW2DReal2Complex"), ("reference image", "src/fluidimage/works/surface_tracking.py: merge_cropped_frame, frame_normalize")],
    "exhaustive exploration of all bounded histories of computations on the real work objects, against the memoryless specification", "model_checking",
    "histories of 3 (4) computations, small images (24 x 28); images of two sizes in the same work: recorded finding",
    [("work object", "grid, FFT buffers, reference", "src/fluidimage/works")],
    ["result of calcul", "input arrays"],
)
P(
    "P17",
    "One work object used by several threads gives the sequential results",
    "When two threads of an executor compute at the same time with the same work object (PIV, BOS, optical flow, preprocessing, surface tracking), including for the first images processed by this object, each obtains the result which it would have obtained alone. Afterwards the work object still gives correct results.",
    ["schedules", "configurations"],
    "every preemption of one thread by another one at the source lines executed (first and last execution of each line, two preemptions in the thorough tier), for 13 configurations and both orders of the inputs",
    "The asynchronous executors share the work objects between threads; the tests run few images and the races (lazy initialisations, shared buffers) need a switch at a precise line.",
    ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/fix.py", "src/fluidimage/calcul/fft.py", "src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py", "src/fluidimage/works/bos.py", "src/fluidimage/works/surface_tracking.py", "src/fluidimage/works/preproc/__init__.py"],
    [("lazy initialisation of the grid", "src/fluidimage/works/piv/singlepass.py: _prepare_with_image"), ("buffers of the FFT", "src/fluidimage/calcul/fft.py: FFTW2DReal2Complex")],
    "stateless exploration of thread interleavings of the real code with a controlled scheduler (preemption bound, at each source line)", "model_checking",
    "two threads; preemption bound 1 (2 in the thorough tier); first 300 lines of each function call; external libraries atomic",
    [("work object", "grid, FFT buffers", "src/fluidimage/works")],
    ["result of calcul in each thread"],
)
P(
    "P18",
    "Saved results can be loaded and are the same",
    "A result saved in a file (PIV with any number of passes, errors, wrong vectors, interpolated fields and spline coefficients of any number of subdomains; light PIV result; vector field on a grid; image) and loaded with the corresponding classes contains the same values (float64 arrays of PIV results being stored as float32), positions, error messages, names, images of the couple (with the crop of the parameters), parameters and metadata, at the same indices. Saving and loading again, extracting a light result, reading a result file as a vector field on a grid or recomputing the grid from a file is consistent with the result computed.",
    ["inputs", "configurations", "histories"],
    "every combination of optional contents of the result objects, numbers of passes and of subdomains (also more than 10), chains of save / load / light / field operations, results of 14 PIV configurations, all shapes and orientations of vector fields",
    "The tests save and load one or two results with a single subdomain, two passes and no optional content and compare few of the values.",
    ["src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", "src/fluidimage/postproc/vector_field.py", "src/fluidimage/postproc/piv.py", "src/fluidimage/postproc/util.py", "src/fluidimage/__init__.py"],
    [("PIV results", "src/fluidimage/data_objects/piv.py: HeavyPIVResults._save_in_hdf5_object, _load_from_hdf5_object"), ("multipass", "src/fluidimage/data_objects/piv.py: MultipassPIVResults.save, _load, make_light_result"), ("fields", "src/fluidimage/postproc/vector_field.py: VectorFieldOnGrid.save, from_file"), ("grid", "src/fluidimage/postproc/piv.py: get_grid_pixel")],
    "exhaustive enumeration of bounded contents and of chains of save / load operations on the real code", "exploration",
    "synthetic results of 7 vectors, 1 to 12 passes, 0 to 101 subdomains; real results of small images",
    None,
    ["files", "attributes of the loaded objects"],
)
P(
    "P15",
    "Each selected group of images has one result, named after its images",
    "For any naming of the image files (one to three numeric or alphabetic indices, separators, padding, with or without base name) and any selection of images, groups or couples by the parameters (subset expression, first and last indices, step), a computation produces exactly one result for each selected group (for BOS, one for each selected image other than the reference), computed with the images of this group, whatever the form in which the paths are given (absolute or relative). The names of the results are distinct, are built from the indices of the images of the group (for PIV, optical flow and BOS; they are the names of the images for the processings producing images), and are the names looked for in the complete mode.",
    ["inputs", "configurations"],
    "all the combinations of 13 naming schemes, sets of existing images (with missing ones), forms of selection, steps, forms of the paths and of the reference, for PIV, optical flow, BOS, preprocessing and image to image",
    "The tests use two or three sets of images with one naming and one selection each; collisions, wrong groups and results not recognized depend on the types and number of indices.",
    ["src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", TO + "base.py", TO + "piv.py", TO + "bos.py", TO + "preproc.py", TO + "optical_flow.py", TO + "image2image.py"],
    [("names of the results", "src/fluidimage/data_objects/piv.py: get_name_piv, get_name_bos"), ("names of the preprocessed images", "src/fluidimage/data_objects/preproc.py: get_name_preproc"), ("selection", TO + "base.py: TopologyBaseFromSeries.init_series, TopologyBaseFromImages.fill_queue_paths")],
    "exhaustive enumeration of bounded sets of images x naming schemes x selections through real computations, against an independent interpretation of the selection", "exploration",
    "up to 16 images; names with a dot and movies excluded (limits of the library fluiddyn)",
    None,
    ["files of the result directory", "topology.results"],
)
P(
    "P19",
    "The displacement found for a window is the displacement of its particles",
    "For every correlation method, window shape (square, rectangular, odd, two sizes), sub-pixel method and limit of displacement, the displacement computed from two interrogation windows is the displacement (dx along the second axis, dy along the first one, from the first to the second image) of the particles: exact for integer displacements before the sub-pixel correction and within a fraction of pixel after it. The correlation is normalized and independent of the mean and amplitude of the images (FFT methods); peaks at the boundary are not kept when there is another one inside, secondary peaks are distinct peaks, and displacements larger than displacement_max are never returned. Complete PIV computations (one or several passes, TPS or not, mask, overlap) measure uniform and linear displacement fields at the right positions.",
    ["inputs", "configurations"],
    "all couples of basis images (bilinearity) for small windows; all positions of a particle x all integer displacements for each method and shape; all positions of two peaks; 24 configurations x integer and fractional displacements and 5 linear fields",
    "The tests use one or two displacements in one direction with even square windows; sign, parity, transposition and boundary errors need other shapes and positions.",
    ["src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/fft.py", "src/fluidimage/calcul/subpix.py", "src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/multipass.py"],
    [("correlation", "src/fluidimage/calcul/correl.py: CorrelFFTWithOperBase, correl_numpy, CorrelScipySignal"), ("search of the peaks", "src/fluidimage/calcul/correl.py: nan_indices_max, compute_displacements_from_correl"), ("sub-pixel", "src/fluidimage/calcul/subpix.py: SubPix"), ("positions of the windows", "src/fluidimage/works/piv/singlepass.py: _calcul_positions_vectors_subimages")],
    "exhaustive enumeration of bounded inputs (basis images, positions, displacements, peaks, configurations) on the real code against analytical displacements", "exploration",
    "windows up to 12x14 (16x16 in the thorough tier) for the exhaustive parts; images of 56x64 for complete computations, with tolerances of a fraction of pixel and 8% of outliers",
    None,
    ["results of the correlation classes", "results of WorkPIV.calcul"],
)
P(
    "P20",
    "Vectors are on a grid covering the image, at their real positions",
    "The vectors of a PIV computation are at distinct positions of a regular grid: the first interrogation window starts at the first pixel of the (cropped) image, the step is the one given by the window and the overlap, every window is inside the image and the grid covers the image up to less than one step; the grid computed from the parameters only is the one of the results. A vector at a position depends on the particles around this position of the original image, and using a crop (params.mask.strcrop) gives the result of the images really cropped, at positions shifted by the origin of the crop (also for the optical flow, for which limits of displacement only remove the vectors out of these limits).",
    ["inputs", "configurations"],
    "all the sizes of images from one window to several steps x windows (odd, even, rectangular) x overlaps x passes; a particle at the position of each vector of 13 configurations; all the combinations of crops in two directions; displacements x limits x crops for the optical flow",
    "The tests use one image size, square windows and at most one crop, and never compare the positions with those of the particles.",
    ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/multipass.py", "src/fluidimage/works/__init__.py", "src/fluidimage/works/optical_flow.py", "src/fluidimage/postproc/piv.py"],
    [("grid", "src/fluidimage/works/piv/singlepass.py: _prepare_with_image"), ("crop", "src/fluidimage/works/__init__.py: BaseWorkWithMask"), ("optical flow", "src/fluidimage/works/optical_flow.py"), ("grid from the parameters", "src/fluidimage/postproc/piv.py: get_grid_pixel")],
    "exhaustive enumeration of bounded sizes, windows, overlaps, crops and positions of a particle on the real code", "exploration",
    "images up to 64x64; crops counted from the end of the image (negative start) or with a step are recorded findings",
    None,
    ["xs, ys, deltaxs, deltays of the results", "get_grid_pixel"],
)
P(
    "P21",
    "Wrong vectors are removed or replaced and the others are kept",
    "In each pass, the vectors with an error, a correlation smaller than correl_min, a displacement larger than displacement_max or a difference with the mean of their valid neighbours larger than threshold_diff_neighbour (each criterion only when set) are removed, with the reason and the removed values recorded under the same index; all the other vectors are unchanged. When secondary peaks are searched, a vector is replaced by a secondary peak only if this peak satisfies all the criteria and is closer to the neighbours, the best one being used. This holds for any shape of the grid of vectors, including only one row or column.",
    ["inputs", "configurations"],
    "all the patterns of missing vectors for each grid shape up to 9 (12) vectors; all the assignments of 15 kinds of vectors with up to 2 (3) special vectors x all the combinations of the criteria, number of peaks and input displacement",
    "The tests only run the correction in complete computations with the default criteria and never compare the removed or replaced vectors.",
    ["src/fluidimage/works/piv/fix.py", "src/fluidimage/calcul/mean_neighbors.py", "src/fluidimage/works/piv/multipass.py"],
    [("criteria", "src/fluidimage/works/piv/fix.py: WorkFIX.calcul"), ("neighbours", "src/fluidimage/calcul/mean_neighbors.py: mean_neighbors_xy")],
    "exhaustive enumeration of bounded fields of vectors x criteria on the real code, against an independent interpretation of the criteria", "exploration",
    "grids up to 3x4 vectors; differences within 1e-3 of a threshold are not decided",
    None,
    ["errors, deltaxs_wrong, replaced_vectors, deltaxs of the results"],
)
P(
    "P23",
    "The interpolated displacements are consistent with the valid vectors",
    "Whatever the set of valid vectors of a pass (missing, few, aligned), as soon as there is one valid vector the displacements interpolated for the next pass or for the final grid are computed, at the positions of this grid in the original image: linear fields are reproduced exactly in the region of the valid vectors, values are never out of the range of the field, and the vectors themselves are not modified. With thin plate splines the result is the minimizer defined by the smoothing coefficient, is independent of the order and origin of the vectors and nearly independent of the decomposition in subdomains; erratic vectors are only discarded above the threshold.",
    ["inputs", "configurations"],
    "all the patterns of missing vectors of grids of up to 12 (16) vectors, regular or not x linear fields x sizes of the subdomains x smoothings x configurations of the works",
    "The tests only run the interpolation on a full field and do not compare the values; alignment, few vectors and empty subdomains are never met.",
    ["src/fluidimage/calcul/interpolate/griddata.py", "src/fluidimage/calcul/interpolate/thin_plate_spline.py", "src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py", "src/fluidimage/works/piv/singlepass.py"],
    [("interpolation of the works", "src/fluidimage/works/piv/singlepass.py: apply_interp"), ("splines", "src/fluidimage/calcul/interpolate/thin_plate_spline.py: compute_tps_weights"), ("subdomains", "src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py: ThinPlateSplineSubdom"), ("linear interpolation", "src/fluidimage/calcul/interpolate/griddata.py")],
    "exhaustive enumeration of bounded sets of valid vectors on the real code, against analytical fields and scipy RBFInterpolator", "exploration",
    "positions outside of the extended TPS subdomains have no value (nan)",
    None,
    ["deltaxs_approx, deltaxs_final, deltaxs_smooth of the results", "ThinPlateSplineSubdom.interpolate"],
)
P(
    "P22",
    "Operations on vector fields act on the right vectors and give a new field",
    "Extractions (by indices or positions), truncations, filters, arithmetic and derivatives of a field of vectors give, for each sequence of such operations and whatever the shape and the orientation of the axes, the values obtained by applying the definitions to the plain arrays, at the right positions, without modifying the fields they are applied to, and a field saved at any moment is the same when it is loaded. Arrays of fields behave as the sequence of their fields (indexing, adding, extraction in time and space, averages, displayed field and profiles).",
    ["histories", "inputs"],
    "all the sequences of up to 2 (3) operations from each initial field: shapes (square or not), increasing or decreasing axes, z absent, a number or an array, vz absent or present; all the sequences of operations on arrays of fields and of interactive navigation in their display",
    "The tests call each method once on one square field and do not compare the values.",
    ["src/fluidimage/postproc/vector_field.py", "src/fluidimage/postproc/util.py"],
    [("operations", "src/fluidimage/postproc/vector_field.py: VectorFieldOnGrid"), ("arrays", "src/fluidimage/postproc/vector_field.py: ArrayOfVectorFieldsOnGrid"), ("derivatives", "src/fluidimage/postproc/util.py")],
    "explicit-state exploration of all the bounded sequences of operations, a model (plain arrays) being stepped with the real objects", "model_checking",
    "fields up to 9x8 points; the names and units kept by the arithmetic and vz with the gaussian filter are not considered",
    [("field", "x, y, z, vx, vy, vz, names, history", "src/fluidimage/postproc/vector_field.py")],
    ["attributes of the fields", "saved files", "matplotlib artists of the display"],
)
P(
    "P24",
    "Fourier transforms and spectra put the energy at the right wave numbers",
    "For any number of points, axis, step and signal, the Fourier coefficients are the ones of the definition (explicit sum) associated with the right wave numbers, sorted, and the spectra are non negative, with the energy of each mode at its wave number and a total equal to half the mean square of the signal. The methods of the fields and of the arrays of fields give the transforms and spectra of each component along the right axis, arrays being averaged over their fields.",
    ["inputs", "configurations"],
    "all the numbers of points up to 8 (14) in each direction, odd and even, x steps x all the basis signals and Fourier modes",
    "The tests run the functions on one even-sized array and only check that the sum of the spectrum is the energy.",
    ["src/fluidimage/postproc/util.py", "src/fluidimage/postproc/vector_field.py"],
    [("transforms", "src/fluidimage/postproc/util.py: compute_1dspectrum, compute_2dspectrum"), ("methods", "src/fluidimage/postproc/vector_field.py: compute_spatial_fft, compute_spatial_spectrum, compute_time_spectrum")],
    "exhaustive enumeration of bounded sizes and of a basis of the signals (linearity) on the real code, against explicit sums", "exploration",
    "regular grids with at least two points in the transformed directions",
)
P(
    "P26",
    "Calibrations give the positions and displacements in physical units",
    "A calibration made from points whose physical positions are known transforms pixels, and displacements in pixels, into the right physical positions and displacements, in the plane asked by the user (whatever its inclination), at any pixel seen at the calibrated levels, for any origin, aspect ratio of the pixels and order of the files; a saved calibration is the same when it is loaded. Two calibrated cameras give the three components of any displacement whatever their positions and order, as soon as they do not look in the same direction; arguments are not modified, and the points of a target are detected in the order of the physical points.",
    ["inputs", "configurations"],
    "all the couples of points around a point x aspect ratios x origins; parallel and pinhole cameras x sets of levels in any order, complete or not, x pixels x planes x basis displacements; all the couples of cameras of a list; Tsai cameras with slices, angles and refraction; grids of circles of all the small sizes",
    "The tests use one camera of one experiment with one horizontal plane and most of them do not check the values.",
    ["src/fluidimage/calibration/calib2d_simple.py", "src/fluidimage/calibration/calib_direct.py", "src/fluidimage/calibration/calib_tsai.py", "src/fluidimage/calibration/calib_cv.py", "src/fluidimage/calibration/util.py"],
    [("simple", "src/fluidimage/calibration/calib2d_simple.py: Calibration2DSimple"), ("optical paths", "src/fluidimage/calibration/calib_direct.py: CalibDirect, Interpolent"), ("stereo", "src/fluidimage/calibration/calib_direct.py: DirectStereoReconstruction"), ("Tsai", "src/fluidimage/calibration/calib_tsai.py: CalibrationTsai"), ("targets", "src/fluidimage/calibration/calib_cv.py: SimpleCircleGrid, CalibCV")],
    "exhaustive enumeration of bounded sets of synthetic cameras, planes, pixels and displacements on the real code, against their exact geometry", "exploration",
    "the inversion of the Tsai camera with distortion is approximate by design and not considered; numerical tolerance of the fits of the optical paths",
    None,
    ["pix2phys, phys2pix, apply_calib, reconstruction", "saved calibrations"],
)
P(
    "P29",
    "The displays and viewers show the data asked for after any actions",
    "The display of PIV results, the display of images before and after a processing, the viewer of images (fluidimviewer) and the viewer of PIV fields (fluidpivviewer) show the image, the field or the vector selected by the actions of the user, with the right file name, positions, values, limits of colors and correlation, whatever the sequence of actions. Only the selected image is visible, and the figure is drawn again after each change. Displaying never modifies the results or the images.",
    ["histories", "inputs", "configurations"],
    "every sequence of clicks, keys and texts (next, previous, by n, switch, selection of any vector, limits of colors, reload of a file that has been rewritten) for every number of images or files, pass, kind of vectors and options of the display",
    "The tests call a few methods once and look at no figure; a stale or hidden image, or a vector which is not the selected one, needs a particular sequence of actions.",
    ["src/fluidimage/data_objects/display_piv.py", "src/fluidimage/data_objects/display_pre.py", "src/fluidimage/gui/imviewer.py", "src/fluidimage/gui/piv_viewer.py", "src/fluidimage/gui/base_matplotlib.py"],
    [("PIV results", "src/fluidimage/data_objects/display_piv.py: DisplayPIV"), ("images", "src/fluidimage/data_objects/display_pre.py: DisplayPreProc"), ("viewer of images", "src/fluidimage/gui/imviewer.py: ImageViewer"), ("viewer of fields", "src/fluidimage/gui/piv_viewer.py: VectorFieldsViewer")],
    "explicit-state exploration of models of the viewers, every transition executed by the real viewer through matplotlib events", "model_checking",
    "every transition of the reachable states of each model (walk bounded for the viewer of images in the quick tier) and every sequence of 2 (thorough: 3) actions from a new viewer; Agg figures, drawings recorded and not rendered",
    [("viewer", "image shown, selected vector, index of the file, step, limits, images in memory", "src/fluidimage/gui, src/fluidimage/data_objects/display_piv.py")],
    ["artists of the figures", "arrays of the results"],
)
P(
    "P30",
    "The intensity of each voxel comes from the pixels where it is seen",
    "The voxels of a volume are the regular grid given by the limits and numbers of points (in the documented order), and their positions in the image of each calibrated camera are the ones of the geometry of the camera. The reconstructed intensity of a voxel is the geometric mean of the intensities seen by all the cameras, independently of the order of the cameras, of the sizes of the chunks, of the previous frames and of the storage (memory or file). A saved volume is the same when it is loaded, its description counts the right voxels and each slice displayed is the slice of the volume.",
    ["inputs", "configurations"],
    "all the volumes with up to 4 (5) points in each direction x limits; all the ordered subsets of 3 cameras x chunks x storages x two successive frames, each pixel of the images having a different value",
    "The only test runs one reconstruction with cubic dimensions and does not check any value.",
    ["src/fluidimage/reconstruct/tomo/mlos.py", "src/fluidimage/data_objects/tomo.py", "src/fluidimage/calibration/calib_cv.py"],
    [("reconstruction", "src/fluidimage/reconstruct/tomo/mlos.py: TomoMLOSCV"), ("volumes", "src/fluidimage/data_objects/tomo.py: ArrayTomoCV, ArrayTomo"), ("interpolation of the calibration", "src/fluidimage/calibration/calib_cv.py: get_rotation, get_translate")],
    "exhaustive enumeration of bounded volumes, cameras and storages on the real code, against the geometry of the cameras", "exploration",
    "strictly positive intensities (zero pixels are ignored by the interpolation); voxels projected close to the limit between two pixels are not decided",
    None,
    ["TomoMLOSCV.phys2pix", "ArrayTomoCV.I and files"],
)
P(
    "P25",
    "The analysis of the log files gives what happened during the computation",
    "LogTopology, given a result directory, a log directory or a log file, gives each work launched by the last computation exactly once, with its name, key, start time (relative to the start of the execution) and duration (nan when it failed or did not finish), the executor, topology, number of workers, memory and total duration, whatever the executor, the names of the images, the failures and what the works or other threads print. At any moment of the computation (any truncation of the files) the log is read without error and gives the works already written, and the figures show these values (number of running works at each time).",
    ["crash-points", "schedules", "inputs"],
    "each executor x names x failures; all the byte truncations of the log files; all the placements of the writes of another thread between the writes of the log; all the sets of up to 2 (3) intervals of works",
    "The only test reads one log of one executor and calls the plots without checking the data.",
    ["src/fluidimage/topologies/log.py", "src/fluidimage/executors/base.py", "src/fluidimage/executors/exec_async.py", "src/fluidimage/executors/servers.py"],
    [("reader", "src/fluidimage/topologies/log.py: DataLogFile, LogTopology"), ("writer", "src/fluidimage/executors/base.py: log_in_file, log_in_file_memory_usage, _init_compute_log")],
    "exhaustive enumeration of the truncations and of the interleavings of the writes of logs of real computations", "fault_enumeration",
    "exec_async_servers_threading (debug) is excluded: its main log is redirected by the servers; times are compared by inequalities",
    None,
    ["LogTopology", "matplotlib artists of its figures"],
)
P(
    "P27",
    "Preprocessing tools give the documented images for any type of images",
    "Each preprocessing tool (both backends) gives, for images of any type and values and any documented form of its arguments, the image defined by its documentation (statistics of each window subtracted, thresholds, linear and tanh rescaling, sharpening...), each image given to a spatial tool being processed alone, without modifying its arguments. The enabled tools, and only them, are applied in the order of the sequence given by the user, or in the default order. The images saved are the results, negative values being zero.",
    ["inputs", "configurations"],
    "all the images of 4 to 6 pixels over sets of values (limits of the types included) x types x weights; patterns x all the parameters; all the series of 2 or 3 (4) images for the temporal tools; all the sequences of 2 (3) tools",
    "The tests only run the tools with their default parameters on one set of images, without any check.",
    ["src/fluidimage/works/preproc/_toolbox_py.py", "src/fluidimage/works/preproc/_toolbox_cv.py", "src/fluidimage/works/preproc/toolbox.py", "src/fluidimage/works/preproc/io.py", "src/fluidimage/data_objects/preproc.py"],
    [("tools", "src/fluidimage/works/preproc/_toolbox_py.py, _toolbox_cv.py"), ("sequences", "src/fluidimage/works/preproc/toolbox.py: PreprocToolsBase.apply"), ("several images", "src/fluidimage/works/preproc/io.py"), ("saving", "src/fluidimage/data_objects/preproc.py: PreprocResults.save")],
    "exhaustive enumeration of bounded images, parameters and sequences of tools on the real code, against explicit loops", "exploration",
    "filters of scipy, skimage and opencv used for the adaptive equalizations and thresholds are trusted; the range of equalize_hist_global ([0, 1]) and the output of adaptive_threshold are not considered; one temporal subset only (see the finding of P12)",
    None,
    ["functions of the toolboxes", "PreprocTools.apply", "saved images"],
)
P(
    "P28",
    "A computation described by a file is the computation described",
    "Running a file of parameters (saved by the user, recorded by a previous computation or made by a launcher) gives the results that the same parameters give in a Python script, with the executor, the number of workers and the saving mode asked in the file, the mode given in the command line taking precedence. With instructions from UVmat, the couples of images are exactly those of the ranges and steps of the instructions and the parameters of the PIV are the corresponding ones. A file which does not describe a supported computation is an error and nothing is computed.",
    ["inputs", "configurations"],
    "each topology x parameters x origin of the file x mode in the file x mode in the command line x state of the result directory x executor; for UVmat, every first and last index and step for each mode of pairs, and all the combinations of the optional sections",
    "The tests run one recorded file and two UVmat instructions, and do not look at the results.",
    ["src/fluidimage/run_from_xml.py", "src/fluidimage/uvmat.py", "src/fluidimage/topologies/launcher.py", TO + "base.py"],
    [("from file to computation", "src/fluidimage/run_from_xml.py: main, modif_params_with_args"), ("UVmat", "src/fluidimage/uvmat.py: tidy_uvmat_instructions, ActionPIVFromUvmatXML"), ("launchers", "src/fluidimage/topologies/launcher.py: TopologyLauncher")],
    "exhaustive enumeration of bounded files, modes and states of the result directory on the real entry point, against the same computation in Python", "exploration",
    "main is called in process except for one real command per topology; surface tracking and mean image with a subset of the combinations; UVmat: pairs a-b only for the mode j1-j2",
    None,
    ["fluidimage.run_from_xml", "result directory"],
)
