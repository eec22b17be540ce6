"""Writes known-findings.json (run by hand when a finding or a fix is recorded)."""
import json, os, subprocess
log = {}
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1); log[s] = h
F = [
 ('C04', 'fix: two-sided frequency axis for odd n_dft', 'bins above Nyquist of odd n_dft were labelled with shifted frequencies'),
 ('C07', 'fix: index of snapshots read from second and later datasets', 'snapshots of the second and later datasets were read at wrong positions / IndexError'),
 ('C03', 'fix: keep the imaginary part of complex data', 'complex data lost their imaginary part (long-time mean, blocks); also C07'),
 ('C18', 'fix: save and load FFT blocks of multi-variable and flattened data', 'loading stored blocks of multi-variable data failed'),
 ('C18', 'fix: reuse_blocks without savefft', 'reuse_blocks without savefft raised AttributeError'),
 ('C05', 'fix: standard SPOD when a process owns a single point', 'np.squeeze dropped the space axis of single-point data; also C09'),
 ('C19', 'fix: do not normalize the weights of the caller in place', 'weight normalization modified the array of the caller; a second fit gave other results; also C11'),
 ('C17', 'fix: indices returned by find_nearest_coords', 'indices were those of the flattened array, not per axis'),
 ('C10', 'fix: local size in npy_load when count is not given', 'default counts were wrong for every rank but one'),
 ('C23', 'fix: read_data for npy files', 'read_data of a npy file failed'),
 ('C06', 'fix: names of the saved confidence bounds', 'upper bound saved under the name of the lower one and vice versa'),
 ('C06', 'fix: one-sided correction of the eigenvalues', 'Nyquist bin / last bin of odd n_dft scaled wrongly'),
 ('C24', 'fix: h1 error', 'h1 error raised / did not use the difference'),
 ('C16', 'fix: get_all_modes must not change the working directory', 'get_all_modes changed the working directory'),
 ('C16', 'fix: check_orthogonality compares complex inner products by magnitude', 'modes phi and i*phi were reported orthogonal'),
 ('C12', 'fix: np.product no longer exists', 'two-stage reader raised AttributeError with the installed numpy'),
 ('C12', 'fix: t_waitall used before assignment in the padded gather', 'UnboundLocalError in the padded gather'),
 ('C14', 'fix: coefficients for given frequency ids', 'freq_idx requests raised'),
 ('C20', 'fix: POD of multi-variable data', 'POD of several variables raised'),
 ('C20', 'fix: POD with the default number of modes', 'POD with the default number of modes raised'),
 ('C20', 'fix: order of POD modes', 'modes were not in the order of the eigenvalues'),
 ('C20', 'fix: POD coefficients with non-uniform weights', 'weights were not applied in the POD coefficients'),
 ('C22', 'fix: inference when the horizon is not a multiple of n_seq_out', 'shape error in the last partial window'),
 ('C25', 'fix: streaming SPOD with a single point or a single mode', 'squeeze dropped axes; the bare except ended the stream silently; also C07'),
 ('C27', 'fix: streaming SPOD doubles only one-sided non-Nyquist frequencies', 'two-sided spectra of real data were doubled at all bins but the first and the last, the last bin of an odd block length was not doubled'),
 ('C25', 'fix: streaming SPOD when new data lies in the span of the basis', '0/0 made the SVD fail for linearly dependent content; also C07'),
 ('C23', 'fix: read_config keeps every key of a section entry, not only its first', 'the keys after the first one of a section entry were dropped silently'),
 ('C13', 'fix: weights given flattened are reshaped like the data, so that they are distributed along the right axis', 'weights given as a flat array (accepted serially) were cut along a wrong axis in parallel and normalized wrongly; also C09, C11'),
 ('C11', 'fix: parallel variance when a process owns no data', 'NaN statistics if a process owns no data; also C09'),
 ('C14', 'fix: methods of the fitted object use the folders given by the caller', 'compute_coeffs_op of the object ignored results_dir, compute_reconstruction ignored coeffs_dir, file_dynamics was unset; also C15, C20'),
 ('C28', 'fix: coefficients by convolution use the selected frequencies and match the saved modes', 'compute_coeffs_conv saved modes that do not match its coefficients, failed for selections and did not reduce over processes; also C15, C09'),
 ('C12', 'fix: two-stage reader selects snapshots by position, not by time label', 'files without a time coordinate or with repeated labels: ValueError, or a row broadcast over two snapshots'),
 ('C11', 'fix: variance of complex data is the mean squared modulus of the deviations', 'variance of complex data squared instead of using the modulus; also C09'),
 ('C12', 'fix: files of integers hold real data', 'real data read from files of integers were truncated'),
 ('C10', 'fix: parallel reduction, save and load of data in foreign byte order', 'foreign byte order was not kept in allreduce / npy_save / npy_load; also C09'),
 ('C02', 'fix: normalize_data of complex data divides by the variance', 'normalization of complex data dropped the imaginary part'),
 ('C24', 'fix: h1 norm of complex data', 'h1 norm of complex data was not the modulus'),
 ('C12', 'fix: message counts of the padded gather are integers', 'message counts of the padded gather were floats'),
 ('C21', 'fix: scaling of integer data is not truncated', 'scaled integer data were truncated'),
 ('C11', 'fix: normalization of integer weights is not truncated', 'normalized integer weights were truncated'),
 ('C24', 'fix: errors of unsigned and short integer data do not wrap around', 'errors of unsigned / short integer data wrapped around'),
 ('C05', 'fix: a second fit saves the number of modes asked for, not that of the fit before', 'a second fit saved the number of modes of the fit before; also C01, C20'),
]
known = [
 dict(id='geo-first-longitude', property='C13', what='geo_trapz_2D and geo_trapz_3D give weight 0 to the points of the first longitude (np.insert(diff(x1),0,0)); pinned by the stable tests test_weights_2d/test_weights_3d, so not repaired'),
 dict(id='geo3d-variables-first', property='C13', what='geo_trapz_3D stacks n_vars>1 variables along the first axis (and has no variable axis for n_vars=1) instead of the layout [space, variable]; the 3-D layout is pinned by test_weights_3d, so not repaired'),
 dict(id='stream-block-starts', property='C27', what='Streaming.fit restarts the first slot one snapshot late (t_idx[block_j] = min(t_idx) - dn before the newest slot is advanced): block b starts at b*(n_dft-n_overlap) + b//ceil(n_dft/(n_dft-n_overlap)), so snapshots are skipped; the expected values of test_streaming_* (data not shipped) pin the schedule to 1e-10, so not repaired'),
]
fixed = [f'fixed: property={p} {log[s]} {w}' for p, s, w in F]
assert set(s for _, s, _ in F) == set(s for s in log if s.startswith('fix:')), set(log) ^ set(s for _, s, _ in F)
json.dump(dict(known=known, fixed=fixed), open(os.path.join(os.path.dirname(__file__), '..', 'known-findings.json'), 'w'), indent=1)
