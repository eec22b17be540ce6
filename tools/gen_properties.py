#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))
SB, SS, SU = 'pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/utils.py'
ST = 'pyspod/spod/streaming.py'
PA, RD, WE, PO = 'pyspod/utils/parallel.py', 'pyspod/utils/reader.py', 'pyspod/utils/weights.py', 'pyspod/utils/postproc.py'
IO, ER = 'pyspod/utils/io.py', 'pyspod/utils/errors.py'
PB, PS, PU = 'pyspod/pod/base.py', 'pyspod/pod/standard.py', 'pyspod/pod/utils.py'
EB, EN = 'pyspod/emulation/base.py', 'pyspod/emulation/neural_nets.py'

prop('C01', 'Welch segmentation covers the record and rejects impossible set-ups',
 'With n_overlap = ceil(n_dft*overlap/100), a batch SPOD fit of a record of nt snapshots uses exactly floor((nt-n_overlap)/(n_dft-n_overlap)) blocks, and block i consists of the n_dft consecutive snapshots starting at i*(n_dft-n_overlap), in record order and entirely inside the record. '
 'An overlap that leaves no new snapshot per block (n_overlap > n_dft-1), fewer than 4 snapshots per block, or fewer than 2 blocks are rejected with ValueError instead of producing results; the number of saved modes never exceeds the number of blocks.',
 ['inputs', 'configurations'], 'every record length, block length, overlap percentage and requested number of modes, for arrays and for chunked records',
 'The tests fix one n_dft/overlap pair with nt a multiple of it; off-by-one errors only show for remainders, odd block lengths and fractional overlaps.',
 [SB, SS], [('Base.__init__ computes n_overlap and rejects large ones', SB), ('Base._initialize computes n_blocks and rejects meaningless ones', SB), ('Standard._compute_blocks computes the block offset', SS), ('Standard._get_block copies the snapshots of a block', SS)],
 ['n_blocks property', 'saved FFT blocks', 'exceptions of the constructor and of fit'])
prop('C02', 'Each Fourier realization is the gain-corrected windowed DFT of its block',
 'For every block and frequency bin k kept, the Fourier realization equals (1/n_dft)*(1/mean(w))*sum_t w[t]*y[t]*exp(-2*pi*i*k*t/n_dft), where w is the symmetric Hamming window and y is the block after subtraction of the selected mean (long-time mean of the record, mean of the block, or nothing) and, if requested, division by the unbiased pointwise variance of the block, a vanishing variance counting as 1. '
 'One-sided fits of real data keep the bins 0..floor(n_dft/2); every other fit keeps all n_dft bins.',
 ['inputs', 'configurations'], 'every real or complex record, block length (odd and even), overlap, mean type, data normalization setting, number of variables and number of points',
 'Tests compare a few mode amplitudes, which do not change under the scaling of the realizations, for even n_dft and one mean type.',
 [SS, SB, SU], [('Standard._compute_blocks', SS), ('Base.select_mean', SB), ('window and window gain set in Base.__init__/_initialize', SB), ('_hamming_window', SU)],
 ['saved FFT blocks (savefft)', 'return value of the block computation'])
prop('C03', 'The long-time mean is the exact mean over all snapshots',
 'The long-time mean used by a fit and saved with its results is, at every point and variable, the sum over all nt snapshots divided by nt, each snapshot counted exactly once. '
 'It does not depend on the number of blocks, on how the record is split into chunks or files, or on the number of processes, and keeps the imaginary part of complex data.',
 ['inputs', 'configurations'], 'every record length (also not divisible by the number of blocks), number of blocks, and partition of the record into time chunks',
 'Tests use record lengths that are multiples of the number of partial sums; the remainder handling and the chunked path are not reached.',
 [SB, PB], [('Base.long_t_mean, array and chunked paths', SB), ('POD Base.long_t_mean', PB)], ['ltm_modes.npy', 'return value of long_t_mean'])
prop('C04', 'Frequency axis labels every DFT bin with its physical frequency',
 'Bin k of a fit is labelled with the frequency of DFT bin k for sampling interval dt: one-sided spectra of real data run k/(n_dft*dt) for k = 0..floor(n_dft/2), full spectra k/(n_dft*dt) for k = 0..n_dft-1, and spectra of complex data use k/(n_dft*dt) below Nyquist and (k-n_dft)/(n_dft*dt) above, at Nyquist either sign for even n_dft. '
 'The number of frequencies equals the length of the axis and the number of rows of the eigenvalue array and of mode files.',
 ['inputs', 'configurations'], 'every n_dft of either parity, every dt, real and complex data, one-sided and full spectra',
 'Tests use even n_dft and real data only.',
 [SB], [('Base.get_freq_axis', SB)], ['freq property', 'eigs_freq.npz'])
prop('C05', 'SPOD modes and eigenvalues diagonalize the weighted cross-spectral matrix',
 'At every frequency the eigenvalues are real, non-negative and in descending order, and for all eigenvalues that are not numerically zero the saved modes are orthonormal in the weighted inner product and are eigenvectors of the sample cross-spectral density (1/n_blocks)*Q*Q^H*W built from the Fourier realizations Q, for the corresponding (un-doubled) eigenvalue. '
 'Mode j on disk belongs to the j-th largest eigenvalue, and only the first n_modes_save modes are saved.',
 ['inputs', 'configurations'], 'every set of Fourier realizations, positive weights, number of blocks, frequencies, modes to save, points (including one point per process)',
 'Tests check a handful of entries of modes for fixed data and uniform weights; they cannot establish orthonormality or the eigen-equation for all data.',
 [SS], [('Standard._compute_standard_spod', SS), ('Standard._flip_qhat', SS)], ['modes/freq_idx_*.npy', 'eigs property'])
prop('C06', 'Eigenvalue energy and confidence bounds are scaled consistently',
 'For one-sided fits of real data the reported eigenvalues are twice the eigenvalues of the cross-spectral density at every bin that has a distinct negative-frequency twin, and equal to them at the mean and (even n_dft) Nyquist bins; two-sided and full-spectrum fits report them unscaled, so that the sum over bins and modes equals the mean weighted energy of the Fourier realizations over both sides. '
 'The saved confidence bounds are eig*2n/chi2 quantiles with 2n degrees of freedom at the requested level, and bracket the eigenvalue: lower <= eigenvalue <= upper wherever the confidence level is at least 0.6.',
 ['inputs', 'configurations'], 'every data set, n_dft parity, spectrum type, number of blocks and confidence level',
 'No test reads the eigenvalues scaling or the confidence bounds.',
 [SS, SB], [('one-sided correction and confidence bounds at the end of _compute_standard_spod', SS), ('chi-square factors in Base._initialize', SB), ('Base._store_and_save', SB)], ['eigs property', 'eigs_freq.npz'])
prop('C07', 'A record split over several datasets is read as their concatenation',
 'Reading snapshots [ts,te) from a list of in-memory datasets returns exactly rows ts..te-1 of their concatenation along time, restricted to the points owned by the process, with a trailing axis added for single-variable data, whatever the number of datasets and wherever the boundaries fall. '
 'Consequently batch and streaming fits of the list and of the concatenated record give the same results, and the imaginary part of complex data is kept.',
 ['inputs', 'configurations'], 'every partition of a record into datasets, every time range including single snapshots inside any dataset, every process count',
 'The tests only read whole records from lists of equal parts from time zero.',
 [RD], [('reader_1stage.__init__ accumulates nt', RD), ('reader_1stage.get_data_for_time', RD)], ['get_data', 'fit results'])
prop('C08', 'Domain decomposition partitions an axis exactly',
 'For every axis length N and number of processes P, the local ranges given to the processes are contiguous, in rank order, disjoint, cover 0..N-1 exactly and differ in length by at most one. '
 'Data, weights and modes are all cut along the same spatial axis (the longest one of the data) by this rule, leaving every other axis, including time, whole.',
 ['inputs', 'configurations'], 'every N >= 0, P >= 1, rank, and every array rank and shape',
 'Tests run with two processes and even axis lengths.',
 [PA], [('_blockdist', PA), ('distribute, distribute_data, distribute_dimension', PA)], ['return values of the distribution functions'])
prop('C09', 'Parallel SPOD gives the serial results',
 'For every number of processes, a batch SPOD fit over MPI of a given record, weights and parameters produces the same frequencies, eigenvalues, long-time mean, weights and (up to a phase per mode) modes files as the serial fit, with every grid point at its global position. '
 'The same holds for projection coefficients and reconstructions computed from it.',
 ['inputs', 'configurations', 'schedules'], 'every data shape, number of variables and process count, including uneven partitions and a process owning a single point',
 'The MPI tests need data files that are not shipped and use two processes on divisible shapes.',
 [SS, SB, PA, SU], [('allreduce of the local inner products', SS), ('distribute_* / npy_save', PA)], ['modes/*.npy', 'eigs_freq.npz', 'ltm_modes.npy', 'weights.npy'])
prop('C10', 'Parallel npy save and load round-trip the global array',
 'Saving an array distributed along an axis writes a standard .npy file whose content is the concatenation of the local parts in rank order along that axis, replacing any previous file of that name; loading it in parallel gives every process its contiguous part, in rank order and covering the array once. '
 'In serial, saving and loading are inverse of each other.',
 ['inputs', 'configurations', 'schedules'], 'every array rank, axis, dtype, memory order, local sizes (also empty and uneven), process count, with and without explicit counts',
 'The test saves one two-dimensional array with explicit counts.',
 [PA], [('npy_save: header, displacement, subarray view', PA), ('npy_load: counts, displacement', PA)], ['file bytes', 'loaded arrays'])
prop('C11', 'Distributed statistics and variance normalization equal the global ones',
 'The parallel mean/variance/count of a distributed array equal the mean, population variance and size of the global array for every partition over processes. '
 'Normalizing weights by variance divides the weights of each variable by the population variance of that variable over all points and times, leaves other methods and the weights of the caller untouched, and gives the same result in serial and parallel.',
 ['inputs', 'configurations', 'schedules'], 'every array, partition over processes, combination order, number of variables',
 'The parallel branch is only run by tests that need missing data.',
 [PA, WE], [('pvar and its reduction operator', PA), ('apply_normalization', WE)], ['return values'])
prop('C12', 'Staged file readers deliver every snapshot, point and variable in place',
 'Reading NetCDF files with the two-stage reader, or one-step-per-file MATLAB files with the MATLAB reader, gives each process, for its contiguous range of flattened grid points, all snapshots in file order for all variables in the requested order: chunks cover the record contiguously without gap or overlap. '
 'A fit from files therefore equals the fit of the same record in memory.',
 ['inputs', 'configurations', 'schedules'], 'every number and length of files, grid shape, process count, number of readers and chunks',
 'The tests need data files that are not shipped.',
 [RD], [('reader_2stage.get_data / get_data_for_time', RD), ('reader_mat.get_data / get_data_for_time', RD)], ['get_data', 'fit results'])
prop('C13', 'Quadrature weights follow the geodesic trapezoidal rule and data layout',
 'The two- and three-dimensional geospatial weights are R^2*|cos(lat)|*dlat*dlon on the regular latitude-longitude grid (half cells at the latitude ends), identical for every level and variable, non-negative, proportional to R^2, and laid out with the same axes order as the data (space, then variable). '
 'A fit accepts weights only if their number of entries equals points times variables, and uses unit weights when none are given.',
 ['inputs', 'configurations'], 'every grid size, number of variables and radius',
 'Tests compare three mode amplitudes for one grid and one variable.',
 [WE, SB], [('geo_trapz_2D, geo_trapz_3D', WE), ('Base.define_weights', SB)], ['returned weights'])
prop('C14', 'Expansion coefficients are the weighted least-squares projection',
 'For the retained frequencies and modes Phi, the coefficients A computed from data by oblique projection satisfy the weighted normal equations Phi^H W Phi A = Phi^H W (X - mean) up to the tolerance of the pseudo-inverse, with the same result for both pseudo-inverse variants, and do not depend on the process count; row f*n_modes+m belongs to retained frequency f and mode m. '
 'The retained frequencies are those requested by id, or those between the ones nearest to 1/T_ub and 1/T_lb, or all.',
 ['inputs', 'configurations'], 'every data set, weights, selection of frequencies by period or id, and tolerance',
 'Tests compare a few coefficients for one data set that is not shipped.',
 [SU], [('compute_coeffs_op', SU), ('_oblique_projection', SU), ('_get_modes', SU)], ['coeffs.npy', 'modes_r.npy', 'ltm.npy'])
prop('C15', 'Reconstruction is the mean plus modes times coefficients at the right times',
 'For every selection of time ids the reconstruction file holds, in the order requested, mean + sum_j Phi_j * a_j(t) at every point and variable in the layout [time, space, variable], where Phi, the mean and the coefficients are the saved ones (or the coefficients passed in). '
 'Data lying in the span of the retained modes (plus mean) is reproduced.',
 ['inputs', 'configurations'], 'every coefficient set, time selection (ids, named strides, default), data shape',
 'Tests compare extrema of one reconstruction of data that is not shipped.',
 [SU], [('compute_reconstruction', SU), ('_compute_rec_op', SU)], ['reconstructed.npy'])
prop('C16', 'Stored modes are retrieved at the right frequency, variable and mode',
 'Retrieving the modes of frequency id k returns exactly the modes computed for bin k with axes [space, variable, mode], whether they were stored as one file per frequency or one file per frequency and mode; retrieving all modes returns them stacked in frequency order without changing the working directory. '
 'The orthogonality check of modes i, j at a frequency returns their weighted inner product, and true exactly when it is 1 (i = j) or 0 (i != j) within tolerance.',
 ['inputs', 'configurations'], 'every number of frequencies, modes, variables, storage layout and pair of modes',
 'Tests look at single entries for one layout.',
 [PO, SU, SS], [('get_modes_at_freq, get_all_modes', PO), ('check_orthogonality, _get_modes', SU)], ['returned arrays'])
prop('C17', 'Nearest-frequency and nearest-coordinate lookups return true minimizers',
 'The nearest-frequency lookup returns an index that minimizes the distance to the requested frequency over the axis, together with the frequency at that index. '
 'The nearest-coordinate lookup returns, for each spatial dimension, the grid coordinate nearest to the requested one and the index of that coordinate along its own axis, for grids of any shape, and rejects coordinates that do not match the data shape.',
 ['inputs'], 'every axis (also unsorted, negative, with repeated values), every request, every grid dimension and shape',
 'Tests look up one value on one grid.',
 [PO, SB], [('find_nearest_freq, find_nearest_coords', PO)], ['returned values and indices'])
prop('C18', 'Stored FFT blocks are reused only when complete, and reproduce the fit',
 'A fit that reuses stored Fourier blocks gives the same eigenvalues and modes as the fit that computed them, for any number of variables and processes. '
 'Blocks are reused only if a file exists for every block and every frequency; if any is missing all blocks are recomputed from the data.',
 ['configurations', 'histories', 'inputs'], 'every data shape, process count, and every subset of block files present',
 'Tests reuse a complete set of blocks for one single-variable data set that is not shipped.',
 [SB, SS], [('Base._are_blocks_present', SB), ('loading and saving of blocks in Standard.fit', SS)], ['eigs', 'modes', 'block files'])
prop('C19', 'Fitting and post-processing leave the inputs of the caller unchanged',
 'No fit, projection, reconstruction, weight construction, lookup, scaling or sequence extraction changes the data arrays, weights, coordinates, coefficients or scaling vectors passed by the caller, nor the stored results it only reads. '
 'Running the same fit twice on the same objects therefore gives the same results.',
 ['inputs', 'histories', 'configurations'], 'every entry point, every mean type and normalization setting, arrays and lists of arrays',
 'No test compares the inputs before and after.',
 [SS, SB, WE, SU, EB, EN, RD, PS], [('copies taken before in-place arithmetic', SS), ('apply_normalization copies the weights', WE)], ['input arrays after the call'])
prop('C20', 'POD modes are weighted-orthonormal, energy-ordered, and project and reconstruct',
 'The POD of a real record gives eigenvalues in descending order of the weighted snapshot correlation matrix of the mean-subtracted data, and for eigenvalues that are not numerically zero the saved modes are orthonormal in the weighted inner product. '
 'Coefficients are the weighted inner products of modes and mean-subtracted data, and mean + modes*coefficients reproduces the record when all non-null modes are kept, for any number of variables and split of the record into datasets.',
 ['inputs', 'configurations'], 'every real record, weights, number of variables, saved modes',
 'Tests need data that is not shipped and use uniform weights and one variable.',
 [PS, PB, PU], [('Standard.fit', PS), ('Base._initialize', PB), ('compute_coeffs_op, compute_reconstruction', PU)], ['modes.npy', 'eigs.npz', 'coeffs.npy'])
prop('C21', 'Scaling of emulator data is invertible',
 'For real and complex coefficient matrices and every normalization setting, scaling with the computed scaling vector and de-scaling returns the original data wherever the scaling vector has no zero component. '
 'With local normalization every scaled row lies within [-0.1,0.1], with global normalization within [-1,1] with the bound attained, for real and imaginary parts separately; row i is always scaled by component i.',
 ['inputs', 'configurations'], 'every matrix shape and content, data type and normalization mode',
 'The emulation tests need missing data and only look at network output.',
 [EB], [('scaler, scale_data, descale_data', EB)], ['returned vectors and arrays'])
prop('C22', 'Training windows and predicted windows are aligned in time',
 'Window j of the training set holds the n_seq_in consecutive snapshots starting at j as input and the n_seq_out consecutive snapshots starting fh-1 after its end as target, features in order, and never reaches outside the series. '
 'In inference, the first n_seq_in snapshots are the given ones, and prediction i, made from the n_seq_in given snapshots ending just before it, fills the n_seq_out positions from n_seq_in+i*n_seq_out on; for complex data real and imaginary part are predicted by their own network from their own part.',
 ['inputs', 'configurations'], 'every series length, number of features, window lengths and forecast horizon',
 'Tests only run one configuration with n_seq_out = 1.. on missing data.',
 [EN], [('extract_sequences', EN), ('model_inference', EN)], ['returned arrays'])
prop('C23', 'Configuration and data files are read faithfully',
 'Reading a configuration file returns exactly the key/value pairs of its required section and, if present, of its optional section, the latter taking precedence. '
 'Reading a data file selects the reader by the extension or by the format given (case-insensitive), returns the stored arrays unchanged under their names, and rejects unknown formats with ValueError.',
 ['inputs'], 'every set of keys and values, every supported format',
 'The tests need example files that are not shipped.',
 [IO], [('read_config, _parse_yaml, _check_keys', IO), ('read_data', IO)], ['returned values'])
prop('C24', 'Error measures are the stated norms of the difference',
 'The l1, l2 and linf errors are ||d||_1/n, ||d||_2/n and max|d| of the pointwise difference d of data and reference (divided by the reference for the relative ones), and the h1 error is sqrt(sum_t dt*||d\'_t||_2^2) of the first time difference of d. '
 'They are zero if and only if the differences they measure vanish (l errors) and unknown norms are rejected.',
 ['inputs'], 'every pair of arrays with positive reference for relative norms, every dt > 0',
 'The test adds a constant to a data set that is not shipped.',
 [ER], [('compute_l_errors', ER), ('compute_h_errors', ER)], ['returned values'])
prop('C25', 'Streaming SPOD keeps an orthonormal basis, independent of data chunking',
 'Once at least as many blocks as saved modes have been processed with independent content, the modes saved by a streaming fit are orthonormal in the weighted inner product at every frequency and the reported singular values are real, non-negative and in descending order. '
 'The results do not depend on how the record is split into datasets.',
 ['inputs', 'configurations'], 'every real record, weights, overlap, split into datasets',
 'Tests compare single entries for one record that is not shipped.',
 [ST, RD], [('rank-one basis update in Streaming.fit', ST)], ['modes files', 'eigs'])
prop('C26', 'Streaming SPOD approximates batch SPOD',
 'The modes and energies of a streaming fit converge to those of the batch fit of the same blocks as the number of retained modes grows.',
 ['inputs', 'configurations'], 'every record and truncation',
 'A statement about the truncation error of an incremental SVD; no finite set of records settles it.',
 [ST], [('Streaming.fit', ST)], ['modes files'])
prop('C27', 'Streaming SPOD feeds each basis update with the right transform of each block',
 'In a streaming fit blocks of n_dft consecutive snapshots start every n_dft-n_overlap snapshots. Each completed block enters the update, at every kept frequency and for every point and variable, as its windowed, gain-corrected discrete Fourier transform (for one-sided real spectra doubled at every bin except the mean and the Nyquist bin) with the mean of all snapshots received so far subtracted from every snapshot of the block. '
 'The stored singular values and modes then follow M_b = (b+1)/(b+2) M_(b-1) + (b+1)/(b+2)^2 x_b x_b^H (weighted; b = 1, 2, ... counts the completed blocks), truncated to the saved modes. Every snapshot received enters the running mean exactly once, also when the record is split into several datasets and when the points are distributed over processes.',
 ['inputs', 'histories', 'configurations'], 'every record, number of datasets, block length, overlap, real and complex data',
 'The tests compare single entries of modes of one record that is not shipped; wrong slots, windows or means only shift such numbers.',
 [ST, RD], [('one snapshot of Streaming.fit (running mean, sums of the open blocks)', ST), ('completion of a block and rank-one update in Streaming.fit', ST)], ['modes files', 'eigs'],
 [('block_avg_hat / sum_window / t_idx', 'transform sums, window sums and positions of the open blocks', ST), ('u_hat, lambda', 'basis and singular values', ST)])
prop('C28', 'Coefficients by convolution are windowed inner products with the modes',
 'compute_coeffs_conv returns, for each requested frequency (in the order requested), each time t and each mode, the weighted inner product of the mode with the discrete Fourier transform at that frequency of the Hamming-windowed n_dft snapshots from t-ceil(n_dft/2) on of the data minus their time mean (snapshots outside the record count as zero), up to a factor that depends on t only and equals one at least half a block away from both ends. '
 'The modes and the mean saved with the coefficients are those they belong to, so that compute_reconstruction of that folder gives mean + sum over retained modes of mode times coefficient. The result is the same on any number of processes.',
 ['inputs', 'configurations'], 'every record, block length, selection of frequencies by ids or periods, weights, number of processes',
 'The function is not exercised by any test; misplaced windows, frequencies or modes only show for asymmetric data, several frequencies and several modes.',
 [SU], [('compute_coeffs_conv', SU), ('_compute_rec_conv', SU)], ['coeffs.npy', 'modes_r.npy', 'ltm.npy', 'reconstructed.npy'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
