"""Writes properties.jsonl (kept as code so that the file stays consistent)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),
      why_tests_cant=why,anchors=dict(files=list(files),
      mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      observe_at=list(observe),hook_needed=hook)))
S='pyspod/spod/standard.py'; B='pyspod/spod/base.py'; ST='pyspod/spod/streaming.py'; R='pyspod/utils/reader.py'
PA='pyspod/utils/parallel.py'; U='pyspod/spod/utils.py'; PO='pyspod/utils/postproc.py'; W='pyspod/utils/weights.py'
PB='pyspod/pod/base.py'; PS='pyspod/pod/standard.py'; PU='pyspod/pod/utils.py'; NN='pyspod/emulation/neural_nets.py'

p('C01','Distributed batch SPOD equals its one-process definition',
 'For in-memory data (one array or a list of consecutive arrays, numpy or xarray, real or complex, 1-3 space dimensions, one or more variables), batch SPOD on any number of processes, including more processes than points, produces the eigenvalues, confidence bounds, frequencies, modes (up to a unit phase per mode), weights, long-time mean and parameter file that the textbook sequential algorithm (blocks, mean removal, window, DFT, weighted cross-spectral eigenproblem) gives for the whole data set. This holds for every block length, overlap, mean type, one- or two-sided spectrum, normalisation, weighting, precision and number of saved modes, and for every interleaving of the processes. The modes of one frequency are orthonormal in the weighted inner product, also where energies coincide, and modes without energy are zero. When the fit returns on a process, that process can already read all the results from storage, and every process holds the same eigenvalues.',
 ['schedules','configurations','inputs'],'all interleavings of MPI and file operations of 1..7 ranks (plus the serial path), all reduction orders, all listed options and small data shapes',
 'The passing tests run one 2-rank collective-write round trip and three serial fits with one configuration; no test that passes runs a parallel fit, complex data, lists of arrays, uneven or empty partitions, or looks at what another rank sees when fit returns.',
 [S,B,R,PA,W],[('block DFT and weighted cross-spectral matrix with allreduce',S+':_compute_blocks/_compute_standard_spod'),('largest-axis partition of data and weights',PA+':distribute_data/distribute_dimension'),('collective save of modes, weights, mean',PA+':npy_save, '+B+':_store_and_save')],
 [('modes/freq_idx_*.npy','modes per frequency','results folder'),('eigs_freq.npz','eigenvalues, bounds, frequencies','results folder')],
 ['files in the results folder and attributes of the fitted object, on every rank'])
p('C02','Distributed streaming SPOD consumes every snapshot once, in order',
 'Streaming SPOD on any number of processes, fed one array or a list of consecutive arrays, takes every snapshot exactly once and in time order, and yields the eigenvalues and modes (up to a unit phase) of the sequential streaming recursion with the same block length, overlap and number of retained modes. The result does not depend on how the data is cut into consecutive arrays, on the number of processes or on their interleaving. An error while reading a snapshot is reported, never treated as the end of the data.',
 ['schedules','configurations','inputs','fault_sequences'],'all interleavings of 1..6 ranks, all cuts of the time axis into consecutive arrays, overlaps, spectra and retained-mode counts; read errors at any snapshot on any rank',
 'Every streaming test needs a data file that is not in the repository; none uses a list of arrays or fails a read.',
 [ST,R,B,PA],[('snapshot loop and rank-1 basis update',ST+':fit'),('per-time access into a list of arrays',R+':reader_1stage.get_data_for_time'),('global inner products',PA+':allreduce')],
 [],['modes, eigenvalues and parameters written by the fit; sequence of snapshots requested'])
p('C03','File readers deliver every sample exactly once, in its place',
 'Reading a data set from NetCDF or MATLAB files in parallel gives, over all processes, every (time, point, variable) sample exactly once, at its own time index and flattened spatial position and unchanged up to the requested precision. This holds for every cut of the time axis into files, number of processes (also more processes than snapshots or points), number of reading processes, chunk and block count, message delivery order and transfer method (plain or padded).',
 ['schedules','configurations','inputs'],'all message delivery orders and completions of 1..7 ranks; 1..6 files, 1..3 variables, 1-3 space dimensions; both the plain and the padded exchange; with and without MPI-4',
 'Tests of the file readers need missing files or cover one full read; the padded exchange (needed beyond 2^31 elements) cannot run in a test at all.',
 [R,PA],[('time-distributed read, space-distributed exchange',R+':reader_2stage.get_data_for_time, reader_mat.get_data_for_time'),('chunk/block bookkeeping',R+':get_data'),('partition arithmetic',PA+':_blockdist')],
 [],['arrays returned by the readers on every rank'])
p('C04','SPOD of file-based data stores every mode completely and in place',
 'Batch SPOD of NetCDF or MATLAB data on any number of processes writes one complete file for every (frequency, mode) pair requested, each holding the full spatial field with every value at its own grid point, and the modes, eigenvalues, weights and long-time mean equal those of the sequential algorithm on the same data. This holds whatever the number of modes, processes and points, and whatever the order in which mode pieces are exchanged.',
 ['schedules','configurations','inputs'],'all delivery orders and completion orders of the mode exchange on 1..7 ranks, uneven and empty partitions, numbers of (frequency, mode) pairs not divisible by the number of ranks',
 'No passing test fits file-based data or writes modes one file per mode.',
 [S,R,B,PO],[('round-robin mode exchange and writers',S+':_compute_standard_spod savefreq_disk2 branch'),('block assembly from chunked data',S+':_get_block'),('reading modes back',PO+':get_modes_at_freq')],
 [],['modes folder, modes read back through the library, eigenvalues'])
p('C05','Collectively stored arrays round-trip exactly',
 'An array saved collectively along any axis by any number of processes, with any split of that axis (including empty pieces), any fixed-size numeric data type, byte order and memory layout, is afterwards one valid standard .npy file equal to the concatenation of the pieces in rank order, also when it replaces a longer or shorter file. Loading a .npy file collectively along any axis, with the default or any explicit split, on any number of processes, gives each process exactly its consecutive piece with nothing lost or repeated. Saving never modifies the array being saved.',
 ['schedules','inputs','configurations'],'all interleavings of the collective file operations of 1..7 ranks; all splits, axes, dtypes, byte orders, layouts; overwriting existing files; save by n ranks, load by m ranks',
 'One passing test does a 2-rank round trip of one even double array along axis 0 with an explicit count.',
 [PA],[('offsets by scan, header by rank 0, subarray views',PA+':npy_save'),('header broadcast and default split',PA+':npy_load')],
 [('the .npy file','header + data','file system')],['file bytes as numpy.load sees them; arrays returned on each rank'])
p('C06','Parallel runs always make progress and match their communication',
 'Every library operation called by all processes of a communicator with the same arguments completes on every process under every legal schedule and message-buffering behaviour. No process waits for a message or collective that never comes, no collective is entered with a different operation, root or size on different processes, and no message, request or open shared file is left pending when the operation returns. A send buffer is not changed before its send completes, and a receive buffer is not used before its receive completes.',
 ['schedules','configurations'],'all interleavings, with sends randomly buffered or synchronous, rooted collectives allowed to return early, late deliveries; 1..7 ranks; every parallel entry point of the library',
 'Whether a run deadlocks depends on buffering and timing; two tests run two ranks once each on one MPI with eager small messages.',
 [S,ST,B,R,PA,U,PU,PS,PB],[('barriers, allreduce, scan, bcast, collective files',PA),('nonblocking exchanges',R+', '+S)],
 [],['state of every rank, request and message at every step of the simulated MPI'])
p('C07','Projection, reconstruction and orthogonality hold across jobs',
 'The oblique-projection coefficients, retained modes, long-time mean and reconstruction computed from stored SPOD results equal those of the sequential formulas for the selected frequency range, pseudo-inverse and time instants, and the orthogonality check returns the weighted inner product of the stored modes. The number of processes of the fit, of the projection and of the reconstruction may all differ, each stage may run in a new job that only has the stored files, and results from in-memory or file-based fits are equally usable. Coefficients of one frequency window stay as they are when another window is projected.',
 ['schedules','histories','configurations','inputs'],'all sequences fit(n ranks) -> restart -> project(m ranks) -> restart -> reconstruct(k ranks), all interleavings, frequency windows, pseudo-inverse variants, time selections',
 'The tests of this pipeline need missing data files, and use one rank count for all stages in a single process.',
 [U,PO,PA,B],[('distributed normal equations',U+':_oblique_projection'),('mode gathering',U+':_get_modes'),('reconstruction',U+':compute_reconstruction'),('orthogonality',U+':check_orthogonality')],
 [('coeffs_*/','coeffs.npy, modes_r.npy, ltm.npy, params_coeffs.yaml','results folder')],['stored coefficient and reconstruction files, returned values on every rank'])
p('C08','Distributed POD, its coefficients and reconstruction are consistent',
 'POD of in-memory data (one array or a list of consecutive arrays, any number of variables and space dimensions) on any number of processes gives the eigenvalues in decreasing order and the leading weighted-orthonormal modes (up to sign) of the sequential method of snapshots, orthonormal also where eigenvalues coincide; modes without energy are zero. The coefficients are the weighted projections of the mean-free data on those modes, and the reconstruction from all energetic modes returns the data. The result is independent of process count and interleaving at each stage, also when stages run in separate jobs.',
 ['schedules','histories','configurations','inputs'],'all interleavings of 1..6 ranks at each stage, data lists, weights, mean types, precisions, numbers of modes and time selections',
 'All POD tests need missing data files; the existing ones use one variable and unit weights.',
 [PB,PS,PU,PA],[('snapshot correlation with allreduce',PS+':fit'),('projection',PU+':compute_coeffs_op'),('reconstruction',PU+':compute_reconstruction')],
 [],['modes.npy, eigs.npz, coeffs.npy, reconstructed.npy'])
p('C09','Reused FFT blocks are never torn, partial or stale after a crash',
 'If a job that stores FFT blocks is killed at any instant, any later batch fit of the same data and settings in the same folder, reusing blocks or not, on any number of processes, either completes with the same results as a fit that never saw a crash or reports an error. The same holds when the folder holds the remains of several killed jobs, and reuse of complete blocks gives the results of computing them afresh for any number of variables.',
 ['crash_points','histories','schedules','fault_sequences'],'kill at every file-system operation (including inside a write) and at every scheduling step of 1..4 ranks; up to three crashed jobs in a row; differing rank counts between jobs; differing data between a killed recomputation and the blocks it replaces',
 'No test stores or reuses blocks, and none can kill a job between or inside two writes.',
 [S,B,PA],[('block file write and presence check',S+':fit, '+B+':_are_blocks_present'),('collective file write',PA+':npy_save')],
 [('blocks/fft_block*_freq*.npy','stored DFT of each block and frequency','results folder')],['results folder after the last job'])
p('C10','A failed read or write is never reported as success',
 'If any file operation of a fit, projection, reconstruction or collective save fails (error on open, read, write or close, short write, full disk, read-only folder), the call raises on at least one process; if all processes return normally, everything promised is on disk, complete and correct. Afterwards, with the fault gone, running the same call again in the same folder succeeds with the correct results.',
 ['fault_sequences','schedules','configurations'],'single and repeated errors (EIO, ENOSPC, EACCES, short or partial writes) at any file operation of any rank of 0..4 ranks; batch, streaming, POD, projection, reconstruction, file readers, collective array store; then a fault-free retry',
 'No test injects an I/O error.',
 [S,ST,B,R,PA,U,PU,PO],[('errors propagate from file operations',S+', '+ST+', '+R+', '+U)],
 [],['return or exception of each rank; files on disk when all return'])
p('C11','Results depend only on the inputs of the call, and reading changes nothing',
 'Fitting, refitting the same object, or running any earlier fit with other settings or data in the same process leaves the outcome of a later fit or analysis as if it were run alone. The caller\'s data, weights and working directory are left unchanged, and analysing, reading or modifying retrieved modes leaves the stored results unchanged. Stored results in a read-only folder can be read and analysed.',
 ['histories','configurations','inputs'],'all sequences (up to 8 steps) of fits with differing data and parameters, refits, mode retrieval, mutation of retrieved arrays, projections, reconstructions, checks, in one process over shared folders and shared argument objects',
 'The tests perform one fit per object in its own folder and do not compare inputs, folder contents or later fits.',
 [B,S,ST,U,PO,W,PU],[('parameter handling',B+':__init__/_initialize'),('weight normalisation',W+':apply_normalization'),('mode access',PO+':get_modes_at_freq/get_all_modes/get_data_from_file')],
 [],['argument objects, working directory, hash of the results folder, results of later calls'])
p('C12','Results do not depend on the wall clock',
 'No operation fails or changes its results or stored files because of what the wall clock does: it may stand still, run coarsely, jump forwards or backwards, or differ between processes.',
 ['schedules','inputs','configurations'],'per-rank clocks that freeze, step coarsely, jump backward and forward at any reading; all fits, readers, projections and reconstructions on 0..5 ranks',
 'Tests see only the real clock, which always advances.',
 [R,S,ST,B,U,PU],[('elapsed-time reporting',R+':get_data and progress messages everywhere')],
 [],['return values and stored files compared with the run under a well-behaved clock'])
p('C13','Partitions, sums and statistics are exact for any process count',
 'For any array and number of processes, including more processes than points, the library\'s distribution of data, weights or a chosen axis gives each process one consecutive piece, in rank order, of sizes that differ by at most one, covering everything exactly once. Its global sum equals the elementwise sum over all processes for any numeric type, byte order and layout; its global mean, variance and count and its weight normalisation equal the one-process values. Splitting the communicator puts every process in exactly one group, with the groups covering all processes.',
 ['schedules','inputs','configurations'],'1..12 ranks, all array shapes (also empty pieces), dtypes and byte orders, all reduction orders and interleavings',
 'No passing test calls these with more than two ranks or with uneven or empty pieces.',
 [PA,W],[('block distribution',PA+':_blockdist/distribute/distribute_data/distribute_dimension'),('reduction',PA+':allreduce/pvar'),('weight normalisation',W+':apply_normalization'),('communicator split',PA+':create_subcomm')],
 [],['values returned on each rank'])
p('C14','Convolution coefficients agree for any process count and frequency set',
 'The time-continuous expansion coefficients computed by convolution, the retained modes and the long-time mean stored with them equal those of the sequential formula for the full data, for any number of processes, interleaving, number of modes and frequency range, and the reconstruction from them equals the retained modes times the coefficients plus the mean.',
 ['schedules','configurations','inputs'],'all interleavings of 1..6 ranks and the serial path, one or more modes, full and partial frequency ranges, restarts between stages',
 'No test calls the convolution coefficients at all.',
 [U,PO,PA],[('windowed DFT and projection',U+':compute_coeffs_conv'),('reconstruction',U+':_compute_rec_conv')],
 [],['coeffs.npy, modes_r.npy, ltm.npy, reconstructed.npy'])
p('C15','Emulator predictions come from the stored network of that index only',
 'After any sequence of trainings, inferences and restarts, the emulator\'s prediction for an index uses exactly the network stored last for that index (real and imaginary parts separately), whatever other indices were trained or evaluated before or after in the same or another process, and the given input window is returned unchanged at the start of the prediction. A training that returns has stored the best of its networks and left those of other indices alone. If the stored network of that index is missing or damaged (also by a killed or failed training), the inference raises instead of predicting with another network.',
 ['histories','crash_points','fault_sequences'],'all sequences of train(index)/infer(index)/restart with killed or failing checkpoint writes and damaged or missing checkpoint files',
 'The emulation test needs missing data, trains once and infers once in one process.',
 [NN],[('checkpoint per name',NN+':_train'),('weights loaded per part',NN+':model_inference')],
 [('real<idx>.weights.h5, imag<idx>.weights.h5','stored networks','emulator folder')],['predictions, exceptions'])
p('C16','Figures, films, tracers and lookups show what was stored',
 'Every figure, film, tracer and report drawn from a fit or from data shows exactly the stored or given values: the frequency nearest to the one asked for, the point nearest to the coordinates asked for, the modes, variables, times, slices and windows asked for, against the coordinates that belong to them, one complete file per item under its own name. This holds for any shape, number of variables, spectrum, process count, coordinate order and spacing and for numpy and file sources. Drawing changes neither its inputs nor the stored results, and a view whose reads or writes fail raises instead of showing something else.',
 ['inputs','configurations','histories','fault_sequences'],'all views, over fits of 1..4 ranks from memory, files or in streaming form and 1-3 space dimensions, square and non-square, even, uneven and falling coordinates, requests on, between and outside of the stored frequencies and points, refits in the same folder, views from the object and from the results folder, errors at any file operation of a view',
 'The passing tests draw the figures of one field and look at none of them: they pin no drawn value, and never ask for several variables, a refitted folder, or a failing read.',
 [PO,B],[('lookups',PO+':find_nearest_freq/find_nearest_coords/get_modes_at_freq'),('figures',PO+':plot_*'),('films and reports',PO+':generate_2d_data_video, '+B+':plot_report'),('methods that hand data on',B+':plot_*')],
 [('modes/freq_idx_*.npy','what is shown','results folder')],['arrays handed to the plotting library, files written, lookups returned'])
p('C20','Geographic quadrature weights integrate over the sphere',
 'The built-in latitude-longitude weights are non-negative, have the requested shape, scale with the squared radius and are the same for every variable.',
 ['inputs'],'all grid sizes','No test checks the formula beyond pinned values.',[W],[('trapezoidal weights',W+':geo_trapz_2D/geo_trapz_3D')])
p('C21','Error norms are non-negative, zero for equal fields and scale correctly',
 'The error norms between a field and its approximation are non-negative, zero exactly for identical fields, and the relative ones are invariant to scaling both.',
 ['inputs'],'all pairs of fields','Tests pin a few values.',['pyspod/utils/errors.py'],[('norms','pyspod/utils/errors.py')])
p('C22','Emulator normalisation is inverted exactly by denormalisation',
 'Scaling data by its normalisation vector and descaling it again returns the data, for real and complex data and every normalisation mode.',
 ['inputs'],'all data','Tests run one configuration.',['pyspod/emulation/base.py'],[('scaler/scale_data/descale_data','pyspod/emulation/base.py')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
