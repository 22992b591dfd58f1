#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing PROPS)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, C, N, K = ('allantools/allantools.py', 'allantools/ci.py',
              'allantools/noise.py', 'allantools/noise_kasdin.py')
D, R, M, P = ('allantools/dataset.py', 'allantools/realtime.py',
              'allantools/mask.py', 'allantools/plot.py')
EXIST = ('The existing tests compare a few fixed reference records with '
         'tables from Stable32 and similar programs to a few digits, at '
         'rate 1 and preset averaging times; ')

# id: title, statement, over, text, why, files, mechanisms, technique, note
PROPS = []


def prop(pid, title, statement, over, text, why, mech, technique, note):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over,
                      text=text, why=why, mech=mech, technique=technique,
                      note=note))


prop('C01', 'ADEV, OADEV, HDEV and OHDEV equal their published definitions',
     'For every finite phase record, sampling rate and averaging time '
     'tau=m/rate, ADEV and OADEV are the root of half the mean squared second '
     'difference x[i+2m]-2x[i+m]+x[i] over tau, and HDEV and OHDEV the root '
     'of a sixth of the mean squared third difference, taken over '
     'non-overlapping (start points 0, m, 2m, ...) respectively all start '
     'points, whatever the record length, scale, offset or averaging factor. '
     'The reported n is exactly the number of differences used and the '
     'reported error is deviation/sqrt(n).',
     ['inputs', 'configurations'],
     'all records of 2 points and more (checked up to 140000), all positive '
     'rates, all averaging factors with at least two terms',
     EXIST + 'a slip in one start point, in the strided count, or at long '
     'records or odd rates stays within their tolerance or is never reached.',
     [(A, 'adev, oadev, calc_adev_phase'), (A, 'hdev, ohdev, '
      'calc_hdev_phase'), (A, 'remove_small_ns')],
     'property-based testing against long-double reference definitions',
     'Differential check with independent references; impulse records count '
     'stencil weights one by one.')
prop('C02', 'MDEV, TDEV and PDEV equal their published definitions',
     'For every phase record, rate and averaging factor m, MDEV is the '
     'modified Allan deviation over all N-3m+1 phase-averaged second '
     'differences, TDEV is tau*MDEV/sqrt(3) in seconds, and PDEV is the '
     'parabolic deviation over N-2m omega-weighted terms (equal to ADEV over '
     'all terms at m=1). The reported n is that number of terms, and the '
     'reported error is deviation/sqrt(n); at m=1 MDEV, OADEV and PDEV '
     'coincide.',
     ['inputs', 'configurations'],
     'all records, rates and averaging factors; long records (to 100000 '
     'points for MDEV, 200 for PDEV) included',
     EXIST + 'running-sum drift on long records, window off-by-ones and the '
     'error column are out of their reach.',
     [(A, 'mdev'), (A, 'tdev'), (A, 'pdev, calc_pdev_phase')],
     'property-based testing against long-double reference definitions',
     'References recompute every window from scratch; tolerance is a '
     'rounding allowance plus 1e-8 relative.')
prop('C03', 'Total deviations equal their published definitions',
     'TOTDEV extends the record by point reflection at both ends and averages '
     'N-2 second differences centred on the interior points; MTOTDEV and '
     'HTOTDEV remove a half-average slope from every sub-record (of 3m phase '
     'points resp. 3m frequency values), extend it by even reflection on both '
     'sides and average all its modified Allan resp. Hadamard variances; '
     'TTOTDEV is tau*MTOTDEV/sqrt(3), and HTOTDEV at m=1 is OHDEV. This holds '
     'for every record and averaging factor, with n = N-2, N-3m+1 and (number '
     'of frequency values)-3m+1, the longest possible factor included.',
     ['inputs', 'configurations'],
     'all records, rates and averaging factors up to the last computable one',
     EXIST + 'reflection end points and half-window means for odd and even m '
     'are only sampled at octave factors.',
     [(A, 'totdev, ttotdev'), (A, 'mtotdev, calc_mtotdev_phase'),
      (A, 'htotdev, calc_htotdev_freq')],
     'property-based testing against independent sub-record models',
     'Plain-loop reference models of the NIST SP1065 algorithms.')
prop('C04', 'Theo1 equals its published definition',
     'For every phase record and every even averaging factor m, Theo1 is the '
     'root of the double average over N-m start points and m/2 strides of the '
     'weighted squared differences divided by 0.75 (m*tau0)^2, reported at '
     'tau=m/rate with n counting every term of both sums, (N-m)m/2, and an '
     'error of deviation/sqrt(N-m). Odd averaging factors are never '
     'reported.',
     ['inputs', 'configurations'],
     'all records, rates, even averaging factors up to N-1, requests mixing '
     'odd and even factors',
     EXIST + 'Theo1 is tested on one record with a preset list.',
     [(A, 'theo1'), (A, 'tau_generator (even)')],
     'property-based testing against a reference definition',
     'Direct double-sum reference.')
prop('C05', 'MTIE and TIE rms are exact over every observation window',
     'MTIE at tau=m/rate is the largest peak-to-peak phase over all N-m '
     'windows of m+1 consecutive points, and TIE rms the root mean square of '
     'all N-m differences x[i+m]-x[i]. MTIE never decreases with tau, never '
     'exceeds the peak-to-peak of the record and is never below TIE rms; both '
     'are unchanged by sign and time reversal. The binary-decomposition '
     'variant gives, for windows of 2, 4, 8, ... points, the largest '
     'peak-to-peak over the first 2^k points of the record.',
     ['inputs', 'configurations'],
     'all records (ties, plateaus, single spikes at any position), all window '
     'lengths, checked to 150000 points',
     EXIST + 'a window that misses the first or last position or one sample '
     'shows only for records whose extremes lie just there.',
     [(A, 'mtie, mtie_rolling_window'), (A, 'tierms'),
      (A, 'mtie_phase_fast')],
     'property-based testing against brute-force and sparse-table models',
     'Exact equality of window maxima up to one rounding.')
prop('C06', 'GRADEV averages exactly the gap-free second differences',
     'For phase data with missing values (NaN, at the edges too) the '
     'gap-resistant deviation at each averaging time is the root of half the '
     'mean squared second difference over tau taken over exactly the triples '
     'free of NaN, with n counting them; without gaps it reports the OADEV '
     'rows. Its two error distances are the distances from the deviation to '
     'the lower and upper chi-squared bounds at the requested confidence, '
     'with the degrees of freedom of the requested noise type.',
     ['inputs', 'configurations'],
     'records with any pattern of gaps, all averaging factors, noise types '
     'and confidence levels',
     'One gradev test set uses a fixed record with one gap pattern and prints '
     'the bounds without asserting them.',
     [(A, 'gradev, calc_gradev_phase'), (A, 'trim_data')],
     'property-based testing against a masked reference model',
     'Rows where the tabulated degrees of freedom are not positive are '
     'compared without their bounds.')
prop('C07', 'Covariance deviation and three-cornered-hat identities',
     'GCODEV of two records is the root of the absolute mean product of their '
     'second differences (halved, over tau): it is symmetric, equals OADEV '
     'for identical records, scales with both amplitudes, obeys '
     'Cauchy-Schwarz and the polarisation identity with OADEV of sum and '
     'difference. The three-cornered hat returns, for any deviation function, '
     'sqrt((ab+ca-bc)/2) of the three pairwise variances, with negative '
     'estimates set to zero.',
     ['inputs', 'configurations'],
     'pairs / triples of records of any kind, rates, averaging factors',
     'Tests check one simulated hat and two GCODEV records against stored '
     'numbers.',
     [(A, 'gcodev, calc_gcodev_phase'), (A, 'three_cornered_hat_phase')],
     'property-based testing: reference model and algebraic identities',
     'Both directions of the identities are checked, not signs alone.')
prop('C08', 'Frequency and phase data describe the same clock',
     'Every deviation of fractional-frequency data equals the deviation of '
     'the phase obtained by integrating it, also with leading or trailing '
     'NaN, which are ignored, and also when the mean frequency exceeds the '
     'scatter by many orders of magnitude. Converting frequency to phase and '
     'back returns the frequencies less their mean, phase to frequency and '
     'back the phase up to a straight line; the conversions to fractional '
     'frequency, to radians and the trimming of edge NaNs are exact.',
     ['inputs', 'configurations'],
     'all deviations and conversions on records with offsets to 1e8 times '
     'the scatter, any rate, NaN padding',
     'Tests convert one record per data set at a single rate.',
     [(A, 'input_to_phase, frequency2phase, trim_data'),
      (A, 'phase2frequency, phase2radians, frequency2fractional')],
     'property-based testing: metamorphic relation and round trips',
     'Integration reference uses long double.')
prop('C09', 'Invariance to offsets and drift, exact drift response',
     'Adding a constant phase changes no deviation and adding a constant '
     'frequency changes none except MTIE and TIE rms; adding a linear '
     'frequency drift leaves the Hadamard-type deviations unchanged, while a '
     'pure drift D gives ADEV = OADEV = MDEV = D*tau/sqrt(2) and TDEV = '
     'D*tau^2/sqrt(6), and a pure frequency offset gives MTIE = TIE rms = '
     'offset*tau. Time reversal leaves the overlapping and total deviations '
     'unchanged. All variances except MTIE are quadratic forms (parallelogram '
     'law).',
     ['inputs', 'configurations'],
     'all deviations, phase and frequency input, records of any kind',
     'No existing test relates two calls to each other.',
     [(A, 'all deviation functions')],
     'property-based metamorphic testing',
     'PDEV is exempt from time reversal: its N-2m documented terms are not '
     'symmetric.')
prop('C10', 'Results scale with the units of data and time',
     'Multiplying the data by any factor multiplies every deviation and error '
     'by its absolute value and leaves averaging times and counts unchanged. '
     'Declaring the same samples at k times the rate divides averaging times '
     'by k; for phase data it multiplies frequency-type deviations by k and '
     'leaves time-type ones (TDEV, TTOTDEV, MTIE, TIE rms) unchanged, for '
     'frequency data it leaves the first kind unchanged and divides the '
     'second by k.',
     ['inputs', 'configurations'],
     'all deviations, factors 2^-100..2^100 of both signs, rates 1e-3..1e6',
     'Tests run at rate 1 with data of one magnitude.',
     [(A, 'all deviation functions (tau=m/rate factors)')],
     'property-based metamorphic testing', 'Power-of-two factors make the '
     'relations exact up to rounding of the rate.')
prop('C11', 'Exactly the requested, computable averaging times are reported',
     'A tau request - list, array, keyword (octave, decade, all) or default - '
     'in any order, with duplicates, off-grid, zero, negative, NaN, infinite '
     'or too large entries, yields the ascending distinct multiples m/rate '
     'nearest to the requested values with 0 < m < N (even and maximum-m '
     'limits observed), each with its definitional count. Thinning a tau list '
     'to n per decade keeps an ascending subset with about n in every decade '
     'and no holes. A zero rate and an unknown keyword are refused.',
     ['inputs', 'configurations'],
     'all request forms x rates x record lengths x 16 deviations',
     'Tests request keywords or short clean lists only.',
     [(A, 'tau_generator'), (A, 'tau_reduction'), (A, 'remove_small_ns')],
     'property-based testing against a set model',
     'Off-grid requests within rounding distance of half-way may go either '
     'way.')
prop('C12', 'A reported row depends only on the data and that averaging time',
     'The row (deviation, error, count) of an averaging time is the same '
     'whether it is requested alone, in any order, with duplicates, or among '
     'any other averaging times, for every deviation.',
     ['inputs', 'histories'],
     'all 16 deviations, permuted and extended tau lists',
     'Tests always request one list per record.',
     [(A, 'loops over averaging factors in all deviation functions')],
     'property-based metamorphic testing', 'Exact or near-bit equality.')
prop('C13', 'Every record gives well-formed rows or a clean refusal',
     'For every finite record of at least two points and every tau request a '
     'deviation returns columns of equal length with ascending positive '
     'averaging times, finite non-negative deviations and errors and counts '
     'of at least 2, or raises UserWarning, and the latter exactly when no '
     'requested averaging time has two terms. The largest computable '
     'averaging factor of each estimator is accepted and the next one '
     'refused; an unknown data type is an error, never a guess.',
     ['inputs', 'configurations'],
     'all 16 deviations; constant, zero, two-valued, tiny and huge records; '
     'hostile tau requests',
     'Tests use healthy records of hundreds of points.',
     [(A, 'remove_small_ns'), (A, 'tau_generator'), (A, 'input_to_phase')],
     'property-based robustness testing with a validity predicate',
     'Records of 0 or 1 points and integer overflow are outside the claim.')
prop('C14', 'Calls are pure: no mutation, no hidden state, deterministic',
     'No deviation, conversion or statistics helper changes its array or list '
     'arguments, the global random state or process-wide settings '
     '(floating-point errors, warnings, print options, locale). Repeating a '
     'call after any other calls, or while other threads compute, gives the '
     'same result, equal data in another container give the same rows, and '
     'returned arrays share no memory with the input.',
     ['histories', 'schedules', 'inputs'],
     'call sequences and concurrent calls over 17 deviations and 25 helpers',
     'Tests never look at their input again after a call.',
     [(A, 'all functions'), (C, 'all functions')],
     'property-based testing over call sequences', 'Bitwise comparison of '
     'buffers before and after.')
prop('C15', 'Real-time deviations equal the batch definition at every prefix',
     'After any sequence of add-phase and add-frequency calls, a real-time '
     'OADEV, OHDEV or TDEV object reports for each of its averaging factors '
     'the deviation of the points fed so far, at tau=AF*tau0 (zero while no '
     'term exists), where a frequency value advances the phase by '
     'value*tau0. It does not matter when or how often results are read or '
     'what other objects do, and the factor list passed in is not changed.',
     ['histories', 'configurations'],
     'all operation sequences, factor lists and tau0',
     'Tests feed one record at tau0=1 and compare the end result.',
     [(R, 'dev_realtime.add_phase, add_frequency'),
      (R, 'oadev_realtime, ohdev_realtime, tdev_realtime update loops')],
     'stateful (model-based) property testing',
     'Compared after every call with the definition over the prefix.')
prop('C16', 'Automatic averaging factors of real-time objects',
     'In auto mode a real-time object holds, after every point, exactly the '
     'averaging factors of the logarithmic grid with the requested points per '
     'decade for which 2*AF+1 points exist, ascending and without '
     'duplicates. For each of them deviation and tau equal the definition '
     'over all points so far, exactly as for an object created with these '
     'factors from the start.',
     ['histories', 'configurations'],
     'all record prefixes, points per decade, tau0',
     'One test runs auto mode and compares nothing at activation time.',
     [(R, 'dev_realtime.update_af'), (R, 'update loops')],
     'stateful (model-based) property testing',
     'OADEV, TDEV and OHDEV objects; prefixes around every activation.')
prop('C17', 'Dataset is a faithful wrapper over any call history',
     'After any sequence of construction, input changes and computations on '
     'one or several datasets, a dataset holds the last input it was given '
     'and the result of the last successful computation, equal bit for bit '
     'to calling the named deviation directly with that data, rate, data type '
     'and taus. Names that are not deviations are refused and change '
     'nothing, and earlier returned results never change.',
     ['histories'],
     'interleaved histories of two datasets, 16 deviations, rejected names',
     'Tests compute once per freshly made dataset.',
     [(D, 'Dataset.set_input, Dataset.compute')],
     'stateful (model-based) property testing', 'Model holds what was last '
     'told and last computed.')
prop('C18', 'Written result files reproduce the computed results',
     'The file written from a dataset has one row per computed averaging '
     'time, in order, from which averaging factor, tau, count, deviation and '
     'the lower and upper bounds (half the error to each side, or the two '
     'gap-resistant bounds) are read back to the requested number of '
     'significant digits. The header names data type, rate, statistic and '
     'exactly the parameters given in this call, and earlier file contents '
     'are replaced.',
     ['inputs', 'histories', 'configurations'],
     '15 deviations x rates x digits 1..15 x header parameters x existing '
     'files', 'One test writes a file and checks that it exists.',
     [(D, 'Dataset.write_results')],
     'property-based round-trip testing',
     'Files are written inside a scratch directory only.')
prop('C19', 'Confidence intervals have exactly the claimed coverage',
     'For every deviation, degrees of freedom and confidence level the '
     'interval bounds are those for which edf*dev^2/bound^2 has chi-squared '
     'tail probability (1-ci)/2 on each side. Hence intervals scale with the '
     'deviation, nest with the confidence, narrow with the degrees of '
     'freedom and contain the deviation.',
     ['inputs'],
     'deviations 1e-100..1e9, EDF 0.5..1e5, confidence 0.5..0.9999',
     'Tests check a handful of intervals against a table.',
     [(C, 'confidence_interval')],
     'property-based testing: inverse relation through the chi-squared CDF',
     'scipy chi-squared CDF trusted (the code uses the inverse).')
prop('C20', 'Greenhall equivalent degrees of freedom are right',
     'For every noise exponent -4..2, variance order 1..3, averaging factor, '
     'record length with at least one difference, and every overlapping and '
     'modified choice, the EDF equals the published case formulas of the '
     'Greenhall-Riley algorithm and approximates the exact covariance sum '
     'within 5 percent. At averaging factor 1 the modified and overlapping '
     'choices make no difference, and a longer record never has fewer degrees '
     'of freedom.',
     ['inputs', 'configurations'],
     'all valid exponent/order pairs, m 1..1000, N from the shortest record '
     'up',
     'Tests compare a handful of entries with Stable32.',
     [(C, 'edf_greenhall and its basic sums, tables')],
     'property-based testing against formula and covariance-sum references',
     'White PM with few differences is compared with the exact sum.')
prop('C21', 'Tabulated EDF formulas match the handbook',
     'The simple EDF equals the handbook formula of its noise type (white PM, '
     'flicker PM, white FM, flicker FM with its m=1 case, random walk FM) for '
     'every record length and averaging factor, with a fallback for other '
     'exponents, and stays near the exact covariance-sum EDF. The total and '
     'modified-total EDFs equal the tabulated b*N/m-c for their noise types.',
     ['inputs'],
     'N 8..1e6, m 1..(N-1)/2, every exponent, int/float/array arguments',
     'Tests call each once or never.',
     [(C, 'edf_simple'), (C, 'edf_totdev'), (C, 'edf_mtotdev')],
     'property-based testing against re-derived formulas',
     'Accuracy oracle: untruncated covariance sum.')
prop('C22', 'Noise identification follows the lag-1 ACF algorithm',
     'For every series the identified exponent, its rounding, the '
     'differencing order and rho are those of the lag-1 autocorrelation '
     'algorithm (within minimum and maximum differencing), too short series '
     'are refused, scaling and polynomial trends of the detrended order do '
     'not matter, and power-law noise of exponent 2..-2 is recognised. The '
     'interval based on it is the chi-squared interval with the Greenhall EDF '
     'for the identified exponent (limited to the range the EDF is known '
     'for), the order, overlap and modification of the named deviation, and '
     'is available for every record long enough to identify noise.',
     ['inputs', 'configurations'],
     'series of 8 kinds, averaging factors, phase/frequency, 6 deviations',
     'Tests identify a few simulated records at fixed seeds.',
     [(C, 'autocorr_noise_id, lag1_acf, detrend'),
      (C, 'confidence_interval_noiseID')],
     'property-based testing: reference algorithm and metamorphic relations',
     'Cases near a decision boundary are compared loosely; recovery has '
     '6-sigma margins.')
prop('C23', 'B1 and R(n) noise-identification ratios and their theory',
     'B1 of a record is the sample variance of its averaged frequencies over '
     'its Allan variance and R(n) its modified over its plain Allan variance, '
     'at the stated averaging factor whatever the rate or amplitude. The '
     'theoretical values follow the general bias-function formulas for every '
     'noise type and number of samples, decision boundaries are the geometric '
     'means of neighbouring noise types, and a pure frequency drift '
     'reproduces the theory.',
     ['inputs', 'configurations'],
     'records, averaging factors, rates; all tabulated exponents, N and AF',
     'Tests cover a few noise types at rate 1.',
     [(C, 'b1, b1_theory, b1_boundary, b_to_mu'),
      (C, 'rn, rn_theory, rn_boundary')],
     'property-based testing against reference formulas', '')
prop('C24', 'Coloured-noise generators hit the requested PSD',
     'White, violet and brown noise have exactly the requested number of '
     'points and, over the band, the requested one-sided PSD level and slope '
     '(f^0, f^2, f^-2) at any sampling rate; violet and brown are the scaled '
     'difference and running sum of white noise and pink noise falls as 1/f. '
     'The series is a function of the global random state only; the PSD '
     'estimators return the one-sided periodogram resp. Welch estimate on '
     'the right frequency axis for even and odd lengths.',
     ['inputs', 'configurations'],
     'lengths, levels, rates, seeds',
     'Tests plot or compare one seed loosely.',
     [(N, 'white, brown, violet, pink, iterpink'),
      (N, 'numpy_psd, scipy_psd')],
     'property-based testing: exact seeded relations and statistical oracles',
     'Statistical margins of at least 6 sigma at fixed seeds.')
prop('C25', 'Kasdin power-law noise and its predicted levels',
     'The discrete power-law generator returns exactly the requested number '
     'of points equal to white noise of the requested variance filtered by '
     'the fractional-difference impulse response, including after input '
     'changes and re-generation. Its predicted PSD level and ADEV, MDEV and '
     'PDEV at any tau equal the integrals of that PSD for every exponent, '
     'and simulated series agree with them.',
     ['inputs', 'histories', 'configurations'],
     'lengths, exponents 0..-4, variances, tau0 and tau',
     'Tests check two exponents at one tau with generous tolerance.',
     [(K, 'Noise.generateNoise, set_input'), (K, 'Noise.adev, mdev, '
      'adev_from_qd, mdev_from_qd, pdev_from_qd, phase_psd_from_qd, '
      'frequency_psd_from_qd')],
     'property-based testing: exact seeded relation and quadrature oracle',
     'Statistical margins of at least 6 sigma.')
prop('C26', 'Synthesis from a piecewise PSD reproduces that PSD',
     'The Timmer-Koenig generator returns int(duration/timestep) zero-mean '
     'samples whose spectrum at every frequency of its documented grid '
     'follows the requested piecewise power law (phase or frequency output, '
     'any number of segments, nodes on or off the grid, even or odd length) '
     'with the right absolute level. The same seed gives the same series, no '
     'seed follows the global random state, and inconsistent requests are '
     'refused.',
     ['inputs', 'configurations'],
     'PSDs of 1-4 segments, lengths 4..4097, timesteps, seeds',
     'One example script uses it; no test asserts a spectrum.',
     [(N, 'timmer_koenig_from_psd')],
     'property-based testing: exact seeded ratio and statistical level',
     'Level check has a 6.5-sigma margin.')
prop('C27', 'psd2allan is the Allan integral of the given PSD',
     'For every sampled PSD and frequency step the returned ADEV or MDEV at '
     'each tau is the root of the integral of PSD times the Allan or modified '
     'Allan transfer function up to the highest frequency, at averaging times '
     'that are multiples of the reciprocal highest frequency on the requested '
     'spacing up to half the reciprocal step. It is linear in the PSD, scales '
     'with amplitude and frequency axis, and takes a frequency vector or '
     'step alike.',
     ['inputs', 'configurations'],
     'PSDs of 5..150 points, any step, base and kind',
     'Tests integrate two analytic PSDs at one step.',
     [(A, 'psd2allan')],
     'property-based testing: Gauss-Legendre reference and linearity',
     'Cubic PSDs for the value check (the interpolation is then exact); '
     'arbitrary PSDs for the relations.')
prop('C28', 'Deviation curve and piecewise power-law PSD map exactly',
     'For a piecewise power-law ADEV or HDEV curve the inverse mapping '
     'returns, in frequency order, the exponents -mu-1, the coefficients of '
     'the closed-form transfer integrals and the break frequencies where the '
     'PSD is continuous; unusable curves (sizes, signs, order, slopes outside '
     'convergence, unknown type) raise ValueError. The forward mapping equals '
     'the Allan integral of any piecewise PSD at any averaging time, and a '
     'power law survives the round trip. Neither depends on how a power-law '
     'segment is subdivided, and both scale with amplitude and time units.',
     ['inputs', 'configurations'],
     'curves of 1-5 segments with any convergent slopes, PSDs of 1-4 '
     'segments, 8 decades of tau',
     'There is no test; one example script prints a round trip.',
     [(A, 'adev2psd_piecewise_approx'), (A, 'psd_piecewise_to_adev')],
     'property-based testing against closed forms and independent quadrature',
     'Slopes exactly at the convergence limits are excluded.')
prop('C29', 'Clock masks equal the ITU recommendations',
     'At every averaging time the TDEV and MTIE masks of PRC, PRTC-A, PRTC-B '
     'and ePRTC clocks equal, in seconds, the segment formulas of ITU-T '
     'G.811, G.8272 and G.8272.1, non-decreasing in tau up to the published '
     'rounding. A better clock class never has a looser mask.',
     ['inputs'],
     'averaging times 0.01..1e7 s, breakpoints and their neighbourhoods',
     'No test calls the masks.',
     [(M, 'all mask functions')],
     'property-based testing against tables of the recommendations',
     'At a breakpoint either adjoining formula is accepted.')
prop('C30', 'Plots show exactly what the datasets hold',
     'After any sequence of plot calls on one or several figures each call '
     'has added one curve with the averaging times and deviations of its '
     'dataset (with error bars when asked: the errors to both sides, or the '
     'two gap-resistant distances), on logarithmic axes labelled with the '
     'statistic, with a grid exactly when requested and styling arguments '
     'passed on. Datasets and other figures stay untouched, and saving '
     'writes this figure.',
     ['histories', 'configurations'],
     'plot sequences over 16 deviations and two figures',
     'One test plots once and asserts nothing about the figure.',
     [(P, 'Plot.plot, Plot.save')],
     'stateful property testing of the drawn artists',
     'matplotlib with the Agg backend; artists are read back.')
prop('C31', 'Results depend on the numbers given, not on how they are stored',
     'Every deviation, statistic, conversion and real-time estimator gives '
     'the same result for the same numbers whatever holds them: a list or '
     'tuple of Python numbers, an array of any integer, boolean or floating '
     'type and byte order, a strided, reversed, read-only or subclassed '
     'view. Numeric parameters (factors, lengths, rates, levels) '
     'may be Python or numpy scalars. '
     'Integers never wrap around, single precision storage of data or '
     'averaging times never makes the result single precision, and nothing '
     'depends on memory layout.',
     ['inputs', 'configurations'],
     'integer-valued records up to the limits of each storage type, 24 '
     'storage forms, all deviations and helpers',
     'Every test passes double precision arrays read from text files.',
     [(A, 'float_array, input_to_phase, frequency2phase, phase2frequency'),
      (A, 'htotdev, tau_generator'), (C, 'b1, rn'),
      (R, 'dev_realtime.add_phase, add_frequency')],
     'metamorphic property testing over storage types',
     'Storage types whose numbers are exactly representable as doubles.')
prop('C32', 'Documented defaults and argument order of the public interface',
     'Every public function called with its optional arguments left out, '
     'passed by name or passed in the documented order gives the same result '
     'as the fully spelled-out call with the documented defaults, and a '
     'default is the same on every call: no earlier call with other '
     'arguments changes what a later call with defaults returns.',
     ['inputs', 'histories', 'configurations'],
     'all public functions and classes, random subsets of their arguments '
     'omitted or given by position or name',
     'The tests name nearly every argument on each call, so a changed '
     'default or reordered parameter goes unseen.',
     [(A, 'public functions'), (C, 'confidence_interval and the edf '
      'functions'), (N, 'white, violet, pink'), (K, 'Noise.__init__'),
      (D, 'Dataset'), (R, 'constructors')],
     'differential property testing of call forms',
     'Only documented parameters and defaults are compared.')

prop('C33', 'Confidence intervals cover the true deviation at the stated rate',
     'For power-law noise of exponent 2..-4 the degrees of freedom used for '
     'confidence intervals are those of the estimator, twice its squared '
     'mean over its variance, to the accuracy of the published formulas '
     '(exact for white PM, a few percent for most noises at m>=8). '
     'Intervals made with them, by noise identification or by GRADEV '
     'contain the true deviation at the stated rate within 0.12, whatever '
     'the averaging factor, record length, rate and amplitude, and '
     'the mean square deviation of many records is the true one.',
     ['inputs', 'configurations'],
     'noise exponents 2..-4, ADEV OADEV MDEV TDEV HDEV OHDEV TOTDEV MTOTDEV '
     'GRADEV, records of 8..260 points, levels 0.5..0.95',
     'A test compares one interval with a number from another program; '
     'coverage is a statement about all records.',
     [(C, 'edf_greenhall, edf_totdev, edf_mtotdev, edf_simple'),
      (C, 'confidence_interval, confidence_interval_noiseID'),
      (A, 'gradev')],
     'property-based testing: exact covariance-matrix oracle and Monte Carlo '
     'coverage',
     'Bands are those measured for the published formulas; Monte Carlo '
     'margins are 4.5 sigma or more.')
prop('C34', 'Simulated noise shows the deviation its spectrum predicts',
     'For every noise generator (Kasdin power-law, white, brown, violet, '
     'Timmer-Koenig in phase and frequency output), level, sampling rate '
     'and record length, the mean square of each deviation over many '
     'records equals the integral of the declared power spectral density '
     'times the transfer function of that deviation, and the predictions of '
     'the library itself: the theoretical ADEV, MDEV and PDEV of '
     'the Kasdin generator, psd2allan and psd_piecewise_to_adev.',
     ['inputs', 'configurations'],
     '8 generator/data-type pairs, 9 deviations, m 8..32, all levels/rates',
     'The tests look at one seeded record of a noise type or compare '
     'nothing beyond the length.',
     [(N, 'white, brown, violet, timmer_koenig_from_psd'),
      (K, 'Noise.generateNoise, adev, mdev, pdev_from_qd'),
      (A, 'psd2allan, psd_piecewise_to_adev, all deviations')],
     'property-based testing: ensembles against numerical integrals',
     '6 sigma plus 4 percent.')
prop('C35', 'Reversal, decimation and superposition relations of deviations',
     'Every overlapping, total, modified, parabolic (over the points it '
     'uses), Theo1, MTIE and TIE deviation of a record read backwards or '
     'negated is that of the record. ADEV and HDEV at m equal those at 1 of '
     'every m-th point, OADEV, OHDEV and TIE rms their count-weighted root '
     'mean square over the m decimated records, and MDEV the OADEV of the '
     'm-point moving average. All but MTIE are quadratic: '
     'dev^2(x+y)+dev^2(x-y)=2dev^2(x)+2dev^2(y), with four times the GCODEV '
     'squared as the difference.',
     ['inputs', 'configurations'],
     'records of 16 kinds up to 300 points, every averaging factor and rate',
     'Relations between different records, factors and functions are never '
     'tested; each function is compared with its own table.',
     [(A, 'calc_adev_phase, calc_hdev_phase, calc_pdev_phase'),
      (A, 'mdev, totdev, mtotdev, htotdev, theo1, mtie, tierms, gcodev')],
     'metamorphic property testing', 'Rounding allowances only.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            assert len(p['title']) <= 80, p['pid']
            files = []
            for f, _ in p['mech']:
                if f not in files:
                    files.append(f)
            fp.write(json.dumps({
                'id': p['pid'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': files, 'mechanism': [
                    {'name': n, 'where': f} for f, n in p['mech']]}}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python check.py --selftest',
        'checks': [{
            'property': p['pid'],
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick'
                         % p['pid'],
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough'
                            % p['pid'],
            'evidence_file': 'evidence/%s.json' % p['pid'],
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': (p['note'] + ' Exploration only: no claim beyond '
                           'the generated cases; numpy, scipy and libm are '
                           'trusted.').strip(),
        } for p in PROPS],
        'not_applicable': [],
        'notes': 'No hooks in /repo: every property is observed through the '
                 'public API.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
