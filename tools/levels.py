"""What is proved and what is bounded, per property (source of levels.json and MANIFEST.json)."""
ENG = 'contracts on the real functions, obligations generated from their current source by pyvc (symbolic execution over all shapes) and discharged by its term normalizer and z3'
REP = ' Contracts replayed on the real code with concrete inputs: bounded, not counted as proved.'
EXACT = 'arithmetic is exact (reals, mathematical integers); rounding, overflow and NaN are outside the contracts and only seen by the bounded replay'
EIG = 'eigenvalue decompositions are modelled by their specification (E.H E = I, E.H A E = diag, order unspecified until sorted)'
MPI = 'MPI calls follow the MPI standard (Allreduce/Allgather/Scan/Bcast/collective file views)'
RULE = 'random boundary-biased set-ups; distinct by configuration'

def P(proved, bounded, assumptions=(), level='proof'):
    return dict(level=level, technique='deductive verification: ' + ENG if level == 'proof' else 'contract replay on the real code (bounded stand-in for obligations out of reach), with the discharged callee contracts listed in the evidence',
        note=('PROVED: ' if level == 'proof' else 'Proved parts: ') + proved + ' BOUNDED: ' + bounded + REP, bounded=bounded, rule=RULE, assumptions=[EXACT] + list(assumptions))

L = dict(
C01=P('Base.__init__ derives n_overlap and n_blocks and rejects impossible set-ups; _get_block returns the n_dft snapshots from i*(n_dft-n_overlap) for any record and for 1..3 chunks; _compute_blocks calls it for every block index once; n_modes_save <= n_blocks.', 'whole fits, number of spatial axes above 3, more than 3 chunks.'),
C02=P('_compute_blocks stores, for every block, kept bin, point and variable, the gain-corrected windowed DFT of the block minus the selected mean (every mean type, variance normalization, real/complex, one-sided/full); the Hamming window is symmetric.', 'whole fits, rounding.', ['numpy.fft.fft/rfft compute the DFT sum of their definition']),
C03=P('long_t_mean equals the sum over all snapshots divided by nt for any nt, number of blocks, 1..3 datasets and 1..3 space axes, real and complex; select_mean selects it; _initialize stores it and _store_and_save writes it at its global position, serial and distributed.', 'process counts 2,3 and whole fits.'),
C04=P('get_freq_axis labels every bin with its DFT frequency, both parities, one-sided, full and complex; n_freq equals the length of the axis.', 'row counts of the files of whole fits.'),
C05=P('_compute_standard_spod: M = Q^H W Q / n_blocks summed over ranks, eigenvalues real and in descending order, modes Phi = Q Psi / sqrt(lambda n_blocks) are eigenvectors of (1/n_blocks) Q Q^H W and W-orthonormal where lambda > 0, mode j belongs to the j-th largest eigenvalue, n_modes_save of them saved, every file under its frequency with the axes of the data; _store_and_save and fit keep eigenvalues and weights in step with them.', 'rank deficient data, whole fits, the content of the files.', [EIG, MPI]),
C06=P('eigenvalue scaling per bin (doubled except mean and Nyquist of one-sided real spectra), confidence bounds eig*2n/chi2 quantiles at the requested level, computed with the scaled eigenvalues.', 'bracketing (needs numerical chi2 quantiles), energy sum over the bins of whole fits.', [EIG, 'scipy.stats.chi2 / gammaincinv return the chi2 quantile']),
C07=P('reader_1stage (construction, get_data, get_data_for_time) returns rows ts..te-1 of the concatenation for every ts, te, for 1..3 datasets with every length, 1..3 space axes, with or without a variables axis, real and complex, whole or restricted to the points of the process; long_t_mean and _get_block over 1..3 datasets.', 'lists of more than 3 datasets; streaming and batch fits of lists.', [MPI]),
C08=P('_blockdist partitions 0..N-1 (contiguous, disjoint, covering, balanced) for every N, P, rank; distribute_data, distribute and distribute_dimension cut the axis they must by that rule and leave the others whole, 1..4 axes.', 'arrays of other ranks, real communicators of 2..4 processes.', [MPI]),
C09=P('every function on the path of a parallel fit, projection and reconstruction, on a symbolic process of a symbolic number of processes: the decomposition (C08), the reader, _initialize (weights of every kind, normalization, mean), _compute_standard_spod (the local sums added over the ranks are the global Gram matrix, hence the same eigenvalues and the rank-restricted rows of the serial modes), fit, _store_and_save and npy_save (each part at its global position), check_orthogonality, compute_coeffs_op, _oblique_projection, compute_reconstruction, and the same functions of the POD; lemmas: a sum over the axis is the sum over the ranks of the local sums, restriction commutes with the point-wise steps.', 'fits, projections and reconstructions with 2..4 real processes against serial.', [MPI, EIG]),
C10=P('npy_save creates/replaces the file, writes on rank 0 the header of the global shape, dtype and C order, and gives every process the file view and the counts of exactly its part: ranks of the parts 1..4 axes, every axis, every extent, real and complex, either byte order, default and explicit counts; npy_load gives every process its contiguous part; serial save and load are numpy.save/numpy.load of the same array.', 'save/load with 1..4 real processes over ranks, axes, dtypes, memory orders and empty parts.', [MPI, 'numpy.lib.format writes and reads the .npy header of its definition']),
C11=P('pvar returns the mean, population variance and size for any partition and combination order; apply_normalization divides the weights of each variable by the population variance over all points and times, leaves other methods and the weights of the caller untouched, serial and parallel, real and complex data, real and integer weights.', 'real communicators of 2..4 processes.', [MPI]),
C12=P('reader_2stage and reader_mat, on a symbolic process of any number of processes: construction (numbers of snapshots, points, chunks, readers, equal on all processes; 1..3 files), get_data_for_time for any number of files and any time range (loop invariants: rows read by time, messages and offsets per process, gathers), both ways of exchanging messages including the count limit that selects between them, all or fewer readers: the process holds every requested snapshot, at its own points, every variable, in order; get_data: any number of chunks with 1, 2, 3, 5 blocks each, entries consecutive from 0 to nt; _get_block and long_t_mean concatenate the chunks (1..3 of them); fits and saved results with flattened readers.', 'real files of random lengths and time labels read by 1..3 processes; more than 3 chunks in fits.', ['xarray isel/values and h5py datasets return the stored arrays; the chunk count derived from the memory size is only known to be at least one', MPI]),
C13=P('geo_trapz_2D/3D give R^2 |cos lat| dlat dlon with half cells at the latitude ends for every grid size, laid out like the data; _initialize accepts weights only if points times variables, and uses unit weights when none are given.', 'grids of real size, rounding.'),
C14=P('compute_coeffs_op selects the requested frequencies (by index list, by period range, all), subtracts the mean of the data, loads Phi with column f*n_modes+m = mode m of retained frequency f, cuts data, weights and modes alike; _oblique_projection solves the weighted normal equations M A = Q up to the singular values below the tolerance, for both pseudo-inverse variants, with the sums over all ranks; modes, mean, coefficients and parameters are saved in step; the methods of the fitted SPOD object hand over its files, frequencies, weights and settings and the folders of the caller.', 'projections of random fits against least squares.', [EIG.replace('eigenvalue decompositions are', 'singular value decompositions and pinv are'), MPI]),
C15=P('compute_reconstruction loads the saved modes, mean and coefficients (or takes those passed in), forms mean + Phi a(t) for exactly the requested time ids in order (index list, slice-like ranges, all), in the layout [time, space, variable], cut and saved by the rule of the decomposition; lemma: data in the span of the retained modes plus mean is reproduced when the Gram matrix is invertible; the method of the fitted object hands over file names, settings and folder.', 'reconstructions of random fits and time selections.', [MPI]),
C16=P('get_modes_at_freq, get_all_modes, _get_modes retrieve the stored modes with the stated axes; check_orthogonality returns the weighted inner product and the stated flag; the methods of the fitted object ask for its own files, frequencies and weights.', 'files written by whole fits; sets of more than 3 space axes.'),
C17=P('find_nearest_freq and find_nearest_coords return a minimizer and the value/index it belongs to, for every axis length; mismatched coordinates are rejected; the methods of the fitted object use its frequencies and axes.', 'grids of more than 3 axes.'),
C18=P('Standard.fit reuses stored blocks exactly when every (block, frequency) file exists, recomputes all otherwise, and hands the blocks it loads to the kernel in place; _are_blocks_present decides by the files.', 'fits before/after with random subsets of block files.'),
C19=P('frame obligations on every function an array of the caller reaches: after the call every element, shape and list or dictionary entry of the data, weights, coefficients, coordinates, scaling vectors and datasets is what it was: fits (initialization, readers of data in memory, block by block transforms with every mean and normalization, decomposition, streaming by an arbitrary snapshot), POD, projections, reconstructions, convolution coefficients, weights, lookups, scaling, emulation; double and single precision (where a cast copies nothing).', 'the data are read from files by the two-stage reader, whole fits repeated on the same objects.', [MPI]),
C20=P('POD _initialize, long_t_mean, select_mean, fit (serial and distributed: eigenvalues of X^T W X / nt in descending order, modes W-orthonormal where the eigenvalue is positive, mode j of the j-th eigenvalue), _store_and_save, compute_coeffs_op (weighted inner products with the mean-subtracted data), compute_reconstruction (mean + modes*coefficients at the requested times); lemma: all non-null modes reproduce the record.', 'random records, rank deficient records.', [EIG, MPI]),
C21=P('scaler, scale_data and descale_data: inverse of each other, row i by component i, ranges attained for every matrix, real and complex parts separately, real and integer data, every normalization.', 'rounding.'),
C22=P('extract_sequences, model_inference, model_train: windows and predictions in place for every series length, horizon and window lengths, each network with its own part.', 'real keras networks are not available here; a recording stand-in replaces them.', ['keras: Model.predict maps a batch of windows to a batch of predictions']),
C23=P('read_config returns the union of the required and optional sections with the optional one taking precedence, for sections of 0..3 entries with 0..2 keys each; read_data selects the reader by extension or format in every case, returns what it read under its names, rejects every other format.', 'random configuration and data files.', ['yaml, h5py, xarray and numpy read their own formats']),
C24=P('compute_l_errors and compute_h_errors return the stated norms for every array, real or complex, relative or not; unknown norms are rejected.', 'arrays of more than 3 axes, short and unsigned integers, rounding.'),
C25=P('Streaming.fit, by an invariant of its loop over the snapshots (singular values real, >= 0, descending; as many leading basis columns as positive singular values orthonormal, the others zero): the statements before the loop establish it, one basis update (for every state satisfying it and every data vector, independent of the basis or not, serial and distributed) preserves it, the statements after the loop turn it into W-orthonormal saved modes and real descending eigenvalues; snapshots are read one by one by their global index, so only the reader (C07) sees the split into datasets.', 'random streaming fits and chunkings; updates with a data vector whose old singular values vanish in the middle.', [EIG, 'scipy.linalg.svd returns its specification, with as many positive singular values as the rank', MPI]),
C27=P('Streaming.fit, statement by statement of its loop: the running mean of all snapshots received; each slot accumulates window[r] DFT[r,f] x over its own last snapshots and hands over exactly the windowed transform of the last n_dft snapshots when complete, restarts a full step after the newest slot; the completed transform is corrected for mean, window and length; K K^H of the small matrix is the stated recursion and the new basis and singular values are its leading part: 1..3 space axes serial, 1..2 distributed, real one- and two-sided, complex.', 'the position of the first block of each slot (known finding), whole fits against an oracle.', [EIG, 'the slots are at least n_dft-n_overlap snapshots apart when a block completes (invariant of the slot positions, checked by the replay only)', MPI]),
)
L['C28'] = P('compute_coeffs_conv: selected frequencies, saved modes and mean, coefficients away from the ends equal the weighted inner product with the windowed transform of the snapshots around t, for every length, 1..2 space axes, serial and distributed (sums over the ranks); _compute_rec_conv multiplies modes and coefficients in place (C15).', 'the factor at the ends, whole runs.', ['numpy.fft.fft computes the DFT sum of its definition', MPI])
NA = dict(C26='convergence of the streaming approximation to batch SPOD has no finite contract: it is an asymptotic statement about a truncated incremental SVD over the whole history')
