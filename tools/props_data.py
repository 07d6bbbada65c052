prop('C01', 'Correlation headers keep a consistent time axis',
     'Whatever sequence of header assignments a user makes on a correlation, '
     'the lag of the last sample always equals the lag of the first sample '
     'plus (number of samples - 1) times the sampling interval, the sampling '
     'interval is always the reciprocal of the sampling rate, and the '
     'generic start/end times mirror the start/end of the correlated window. '
     'Derived header entries can not be overwritten, and a trace\'s sample '
     'count and lag vector always agree with its data. The header of a '
     'correlation bulk has the same consistent lag axis.',
     ['inputs', 'histories'], 'all header values and all assignment orders',
     'tests assign a handful of fixed values in one order',
     ['correlate/stats.py', 'correlate/stream.py'],
     [('derived values refreshed on every assignment',
       'correlate/stats.py:CorrStats.__setitem__')],
     built=True)

prop('C02', 'Trimming keeps every sample at its own lag',
     'Trimming correlations to a lag window returns exactly the samples from '
     'the requested start (rounded down to the sampling grid) to the '
     'requested end, each still at the lag it had before, with sample count, '
     'first lag and last lag of the header describing the returned data. A '
     'window that does not lie inside the data leaves data and header '
     'unchanged.',
     ['inputs'], 'all matrices, lag axes and lag windows',
     'tests use two on-grid windows of one matrix',
     ['monitor/trim.py', 'monitor/dv.py'],
     [('index window from lags', 'monitor/trim.py:corr_mat_trim')],
     built=True)

prop('C03', 'Mirroring averages the two sides of a correlation',
     'Mirroring a correlation matrix yields one value per absolute lag: the '
     'average of the causal and the acausal sample where both exist, the one '
     'available sample where only one side is that long, and the zero-lag '
     'sample unchanged, with a header whose first lag is zero and whose '
     'sample count matches. If zero lag is not on the sampling grid, data '
     'and header come back unchanged.',
     ['inputs'], 'all matrices, start lags (one-sided, asymmetric) and rates',
     'tests mirror one symmetric and one asymmetric fixed matrix',
     ['monitor/post_corr_process.py'],
     [('both sides folded', 'monitor/post_corr_process.py:corr_mat_mirror')],
     built=True)

prop('C04', 'Tapers only shrink amplitudes, and only where asked',
     'Tapering correlations or traces multiplies every sample with a weight '
     'between 0 and 1 that is the same for all traces, is symmetric, is 0 at '
     'the tapered ends (or at the centre, for the centre taper) and exactly 1 '
     'outside the tapered part, also when the tapered part is cut off by the '
     'edge of the data. A taper of zero length changes nothing.',
     ['inputs'], 'all matrices, taper widths, lag axes',
     'tests check one width per taper',
     ['monitor/post_corr_process.py', 'correlate/preprocessing_stream.py'],
     [('edge taper', 'monitor/post_corr_process.py:corr_mat_taper'),
      ('centre taper',
       'monitor/post_corr_process.py:corr_mat_taper_center'),
      ('stream taper', 'correlate/preprocessing_stream.py:cos_taper_st')],
     built=True)

prop('C05', 'Normalisation and clipping of correlations act per trace',
     'Normalising divides every correlation by a factor of its own - its '
     'energy, absolute mean, maximum or absolute maximum inside the '
     'normalisation window - so that the result has unit measure; traces '
     'whose factor is zero stay as they are, and no other trace influences '
     'the result. Clipping limits every trace to plus/minus the threshold '
     'times its own standard deviation around zero and leaves smaller '
     'values untouched.',
     ['inputs'], 'all matrices, windows, measures and thresholds',
     'tests use a few fixed rows and one window',
     ['monitor/post_corr_process.py'],
     [('normalisation',
       'monitor/post_corr_process.py:corr_mat_normalize'),
      ('clipping', 'monitor/post_corr_process.py:corr_mat_clip')],
     built=True)

prop('C13', 'Time-domain preprocessing acts on every trace by itself',
     'Every time-domain preprocessing step computes each output trace from '
     'that input trace alone: sign-bit normalisation returns the sign, '
     'standard-deviation normalisation divides by the trace\'s own standard '
     'deviation (traces without variation stay as they are), clipping limits '
     'to the threshold times the own standard deviation, demeaning removes '
     'the mean of the valid samples, detrending removes a straight line, '
     'running normalisation keeps the sign of every sample and divides by a '
     'zero-phase smoothed envelope, tapers have weights between 0 and 1, zero '
     'padding keeps the data at the front and reaches the required length, '
     'and muting with extended gaps silences every sample above the '
     'threshold while quiet stretches stay untouched.',
     ['inputs'], 'all matrices and step parameters',
     'tests use constant or random fixed matrices',
     ['correlate/preprocessing_td.py'],
     [('processing steps', 'correlate/preprocessing_td.py:clip')],
     built=True)

prop('C06', 'Averages of correlations use every valid sample once',
     'A stack is, sample by sample, the (weighted) average of the available '
     'samples of exactly the correlations of one station/component pair in '
     'its time window; missing samples neither count as zero nor blank out '
     'the stack, every correlation ends up in one of the successive time '
     'windows, and the header spans the first start to the last end with the '
     'lag axis of the stacked data. Averages in time bins take exactly the '
     'correlations that start inside the bin and leave empty bins without '
     'data; representative traces are the mean/median of the available '
     'samples, of the normalised correlations, or of those most similar to '
     'the mean.',
     ['inputs'], 'all sets of correlations, gaps, windows, bins, weights',
     'tests stack a few equal traces without gaps',
     ['correlate/stream.py', 'monitor/post_corr_process.py'],
     [('stack of a group', 'correlate/stream.py:stack_st'),
      ('stack per window', 'correlate/stream.py:CorrStream.stack'),
      ('bins', 'monitor/post_corr_process.py:corr_mat_resample'),
      ('representative trace',
       'monitor/post_corr_process.py:corr_mat_extract_trace')],
     built=True, note='The loop over successive time windows and the median '
     'and similarity-percentile traces are checked bounded only.')

prop('C07', 'Stretch estimates report the best tested similarity',
     'Measuring a velocity change compares every correlation with the '
     'reference stretched by each tested factor, inside the lapse-time '
     'windows and sides asked for. The similarity reported for a factor is '
     'the normalised correlation coefficient of exactly those samples, '
     'between -1 and 1 and 1 for identical waveforms; the reported change is '
     'the tested factor with the highest similarity, and the reported '
     'similarity is that maximum. The tested factors are evenly spaced over '
     'the range asked for, samples outside the windows have no influence, '
     'and correlations without data give no estimate.',
     ['inputs'], 'all correlations, references, windows, sides and factors',
     'tests check a few synthetic stretches to a tolerance',
     ['monitor/stretch_mod.py', 'monitor/post_corr_process.py'],
     [('estimate', 'monitor/stretch_mod.py:velocity_change_estimate'),
      ('candidates', 'monitor/stretch_mod.py:time_stretch_estimate')],
     built=True)

prop('C08', 'Correcting for a velocity change undoes the measured stretch',
     'Applying stretch factors moves every sample of a correlation from lag '
     't to the lag given by its own factor and nothing else: zero stretch '
     'leaves the correlation unchanged, samples whose lag lies outside the '
     'data are not invented, every correlation uses its own factor. '
     'Correcting correlations with the stretches measured against a '
     'reference applies the inverse of the measured change, refuses results '
     'that are not stretches, and measuring never alters the correlations '
     'or their header.',
     ['inputs', 'histories'], 'all correlations, lag axes, factors',
     'tests stretch one synthetic trace',
     ['monitor/post_corr_process.py', 'monitor/stretch_mod.py',
      'correlate/stream.py'],
     [('stretch', 'monitor/stretch_mod.py:time_stretch_apply'),
      ('apply', 'monitor/post_corr_process.py:apply_stretch'),
      ('correct', 'correlate/stream.py:CorrBulk.correct_stretch'),
      ('measure', 'monitor/post_corr_process.py:corr_mat_stretch')],
     built=True, note='The round trip of estimate and correction on '
     'synthetic wave fields is checked bounded only.')

prop('C09', 'Correcting for a time shift undoes the measured shift',
     'Measuring clock shifts compares every correlation with the reference '
     'moved by each tested shift; the reported shift is the tested one with '
     'the highest normalised correlation coefficient over exactly the '
     'samples of the windows asked for, the tested shifts are evenly spaced '
     'and include zero, and correlations without data give no shift. '
     'Applying shifts moves each correlation by its own shift and nothing '
     'else, zero leaves it unchanged, and correcting applies the opposite '
     'of the measured shift. Measuring alters neither the data nor the '
     'header.',
     ['inputs', 'histories'], 'all correlations, windows, ranges, sides',
     'tests use one synthetic shift',
     ['monitor/post_corr_process.py', 'monitor/stretch_mod.py',
      'correlate/stream.py'],
     [('estimate', 'monitor/post_corr_process.py:measure_shift'),
      ('estimate', 'monitor/stretch_mod.py:time_shift_estimate'),
      ('candidates', 'monitor/stretch_mod.py:create_shifted_ref_mat'),
      ('apply', 'monitor/post_corr_process.py:apply_shift'),
      ('correct', 'correlate/stream.py:CorrBulk.correct_shift')],
     built=True, note='The round trip of estimate and correction on '
     'synthetic wave fields is checked bounded only.')

prop('C10', 'Cross-correlations hold the right samples at the right lags',
     'The correlation of two traces is C(lag) = sum over t of a(t) b(t + lag)'
     ' with times measured from the true start of each trace, for even and '
     'odd lengths and any start offset: the first and last lag of the header '
     'are the lags of the first and last sample, centred correlations carry '
     'the offset in the data, others in the label. Exchanging the traces only '
     'reverses the lag axis. Normalised correlations are the plain ones times '
     'a positive factor, never exceed one and do not depend on the '
     'amplitudes.',
     ['inputs', 'configurations'], 'all trace pairs, lengths, sampling rates, '
     'start offsets, lag lengths and normalisation settings',
     'tests correlate constants and mock the padding',
     ['correlate/correlate.py', 'correlate/stream.py'],
     [('correlation matrix',
       'correlate/correlate.py:Correlator._pxcorr_matrix'),
      ('labels', 'correlate/correlate.py:Correlator._pxcorr_inner')],
     built=True)

prop('C11', 'Exactly the requested combinations are correlated',
     'For every combination method, the correlated pairs are exactly those '
     'the method asks for (between stations, between components of a '
     'station, auto, simple or all combinations), restricted to the '
     'requested xcombinations (in either order, with or without components, '
     'complete station codes) and without those that already exist at that '
     'time; no pair is computed twice and no trace that is needed is '
     'dropped. The station combinations looked up in the database are those '
     'of the same pairs.',
     ['inputs', 'configurations'], 'all sets of traces, methods, requested '
     'and existing combinations',
     'tests count combinations of one three-component stream',
     ['correlate/correlate.py'],
     [('combinations of a window',
       'correlate/correlate.py:calc_cross_combis'),
      ('station combinations',
       'correlate/correlate.py:compute_network_station_combinations'),
      ('requested combinations', 'correlate/correlate.py:is_in_xcombis')],
     built=True)

prop('C12', 'Every pair has one canonical order',
     'A pair of traces is always named and stored in the alphabetical order '
     'of (network, station, component), whatever order it was computed in '
     'and with or without the component codes; when a correlation is turned '
     'into this order its samples and its lag axis are reversed with it and '
     'codes, coordinates and locations follow, so that both orders give the '
     'same correlation.',
     ['inputs'], 'all network, station and component codes',
     'tests use codes of equal length',
     ['correlate/correlate.py', 'correlate/stream.py'],
     [('order of codes',
       'correlate/correlate.py:sort_comb_name_alphabetically'),
      ('data and lags turn',
       'correlate/stream.py:alphabetical_correlation')],
     built=True)

prop('C30', 'Results do not depend on the number of processes',
     'Running the correlation on any number of MPI processes gives the same '
     'correlations, headers and lags as on a single one: every trace is '
     'processed, every pair correlated and every result written exactly '
     'once, and all processes take part in every collective call even if '
     'some hold no or less data, so that no run hangs.',
     ['schedules', 'configurations'], 'all numbers of processes and '
     'distributions of data over them',
     'tests run a single process',
     ['correlate/correlate.py'],
     [('work distribution',
       'correlate/correlate.py:Correlator._pxcorr_matrix'),
      ('windows in step',
       'correlate/correlate.py:Correlator._generate_data'),
      ('files', 'correlate/correlate.py:Correlator._write')],
     built=True)

prop('C32', 'Running a correlation again only adds what is missing',
     'A second run over the same data computes and writes nothing and '
     'changes nothing. A run that was interrupted between writes is '
     'completed by the next one to the same correlations as an '
     'uninterrupted run, and new stations or times are added without '
     'touching what exists.',
     ['histories', 'crash_points'], 'all sequences of runs and '
     'interruptions between writes', 'tests mock the database',
     ['correlate/correlate.py', 'db/corr_hdf5.py'],
     [('existing times',
       'correlate/correlate.py:Correlator.find_existing_times'),
      ('existing pairs',
       'correlate/correlate.py:_compare_existing_data')],
     built=True)

prop('C14', 'Spectral preprocessing acts on every spectrum by itself',
     'Frequency-domain steps change each spectrum independently of the '
     'others (except joint whitening, which uses the mean amplitude of each '
     'group of three): whitening keeps the phase and gives every frequency '
     'with energy the amplitude one, leaves frequencies without energy and '
     'the zero frequency at zero; the filter multiplies each frequency of '
     'all traces by the same real weight between 0 and 1 that is 1 in the '
     'pass band and 0 outside; sign-bit normalisation gives the spectrum of '
     'the sign of the trace, whether its number of samples is even or odd.',
     ['inputs'], 'all spectra, numbers of samples and corner frequencies',
     'tests use constant spectra and even lengths',
     ['correlate/preprocessing_fd.py'],
     [('processing steps',
       'correlate/preprocessing_fd.py:spectralWhitening'),
      ('sign bit',
       'correlate/preprocessing_fd.py:FDsignBitNormalization')],
     built=True)

prop('C22', 'Averaging of velocity changes',
     'Averaging velocity change estimates gives, for every time and '
     'candidate, the mean of the similarities available there (missing ones '
     'do not count) and takes value and similarity of every time from the '
     'maximum of the averaged similarity; a time is missing exactly if no '
     'estimate has data there. The number of contributing estimates and the '
     'single values are reported, the inputs stay as they are, both '
     'implementations agree, estimates that do not fit (other shape, axis, '
     'already averaged, outside the area) are left out, other methods are '
     'refused. Component averages group exactly the components of one '
     'station pair that the method asks for. The shift between two reference '
     'periods is removed without inventing values at times without data.',
     ['inputs', 'configurations'], 'all similarity matrices with gaps, all '
     'mixtures of estimates and station and component codes',
     'tests use matrices of random positive numbers without gaps',
     ['monitor/monitor.py'],
     [('average', 'monitor/monitor.py:average_components'),
      ('average of a generator',
       'monitor/monitor.py:average_components_mem_save'),
      ('shift', 'monitor/monitor.py:correct_dv_shift'),
      ('grouping',
       'monitor/monitor.py:Monitor.compute_components_average')],
     built=True)

prop('C23', 'Smoothing of similarity matrices',
     'Smoothing replaces every similarity by the mean of the available '
     'similarities of the same candidate within half the window before and '
     'after (fewer at the ends), ignoring missing ones and those below the '
     'threshold, missing only where the whole window is; value and similarity of every '
     'time then belong to the largest smoothed similarity and are missing '
     'together.',
     ['inputs'], 'all matrices with gaps, windows and thresholds',
     'tests use constant matrices without gaps',
     ['utils/miic_utils.py', 'monitor/dv.py'],
     [('moving average', 'utils/miic_utils.py:nan_moving_av'),
      ('smoothing', 'monitor/dv.py:DV.smooth_sim_mat')],
     built=True)

prop('C17', 'Velocity changes come from the requested windows',
     'The time windows of the monitoring start at the start time and every '
     'increment after it while before the end time, each as long as asked '
     '(impossible requests are refused). The velocity change of a window is '
     'measured only on the requested part of the lag axis (start after the '
     'travel time of the distance between the stations if asked, the '
     'requested length or up to the end, the requested sides), relative to '
     'the given reference or the mean; windows without data are missing; a '
     'lapse window that does not fit into the correlation is refused and '
     'nothing is written. Times, codes, candidates and processing options '
     'are stored with it.',
     ['inputs', 'configurations'], 'all start times, increments and lengths; '
     'stored correlations with gaps, windows and sides (bounded)',
     'tests mock the database and the estimate',
     ['monitor/monitor.py'],
     [('time list', 'monitor/monitor.py:make_time_list'),
      ('estimate', 'monitor/monitor.py:Monitor.compute_velocity_change')],
     built=True)

prop('C24', 'The monitoring handles exactly the requested station pairs',
     'A bulk run measures velocity changes for exactly those stored '
     'correlations whose networks, stations and components the options ask '
     'for (a single network or station, lists, wildcards; pairs in either '
     'order), each once.',
     ['inputs', 'configurations'], 'all mixtures of stored files and '
     'requested networks, stations and components',
     'tests use one file name per option',
     ['monitor/monitor.py'],
     [('filter', 'monitor/monitor.py:corr_find_filter'),
      ('bulk',
       'monitor/monitor.py:Monitor.compute_velocity_change_bulk')],
     built=True)

prop('C20', 'The correlation data base returns what was stored',
     'A correlation written to a data base file comes back with identical '
     'samples and header (times to the tenth of a millisecond the file '
     'format has) when asked for by its codes, in either order, or by '
     'wildcards in them, and every request returns exactly the stored '
     'correlations that match it. Adding never changes what is stored, '
     'removing deletes exactly what matches, listings name exactly what is '
     'stored, a file is only opened for writing with the processing options '
     'it was created with, and an error in between loses nothing written '
     'before.',
     ['inputs', 'histories'], 'all mixtures of stored correlations, requests '
     'and option changes (bounded)',
     'tests replace the file by mocks',
     ['db/corr_hdf5.py'],
     [('read', 'db/corr_hdf5.py:DBHandler.get_data'),
      ('write', 'db/corr_hdf5.py:DBHandler.add_correlation'),
      ('remove', 'db/corr_hdf5.py:DBHandler.remove_data'),
      ('options', 'db/corr_hdf5.py:co_to_hdf5')],
     built=True)

prop('C18', 'Selecting correlations by time takes exactly the right ones',
     'Selecting correlations by a time span, a time of the day, a list of '
     'times to leave out, or rows of a matrix by a window returns exactly '
     'the correlations whose window fulfils the condition and leaves the '
     'source as it was; impossible windows are refused. Successive windows '
     'cover the requested time, and stacks of successive windows put every '
     'correlation of one station, channel and location into exactly one '
     'stack, daily ones starting at midnight.',
     ['inputs'], 'all times of the correlations and windows (proved for the '
     'selection by span, by window and by list), streams of up to 8 '
     'correlations otherwise',
     'tests use one regular series of windows',
     ['correlate/stream.py'],
     [('time span', 'correlate/stream.py:CorrStream.select_corr_time'),
      ('rows', 'correlate/stream.py:CorrBulk._find_slice_index'),
      ('windows', 'correlate/stream.py:CorrStream.slide'),
      ('time of the day', 'correlate/stream.py:CorrStream.select_time')],
     built=True)

prop('C19', 'Rows of a correlation matrix and their header belong together',
     'Turning a stream into a matrix takes exactly the requested '
     'correlations, one row each, with times, location (and channel if it '
     'varies) of the row listed at the same position; correlations whose '
     'common header values differ are refused, those of another sampling '
     'rate are left out. Selecting rows, single ones or turning the matrix '
     'back into traces keeps samples and header together.',
     ['inputs'], 'all mixtures of codes, times and differing header values '
     '(bounded streams; the header of the matrix is proved for all values)',
     'tests use identical headers',
     ['correlate/stream.py'],
     [('matrix', 'correlate/stream.py:CorrStream.create_corr_bulk'),
      ('header', 'correlate/stream.py:convert_statlist_to_bulk_stats'),
      ('traces', 'correlate/stream.py:CorrBulk.create_corr_stream'),
      ('rows', 'correlate/stream.py:CorrBulk.__getitem__')],
     built=True)

prop('C16', 'Filtering and resampling keep the signal at its time',
     'The band pass of a correlation matrix is a zero phase filter of every '
     'row by itself and refuses impossible bands. A lower sampling rate '
     'keeps the signal at the same lags, start and extent of the lag axis, '
     'removes what is above the new Nyquist frequency, and header and '
     'samples agree; a higher rate is refused. Resampling the time axis puts '
     'into every bin the mean of the available correlations that start in '
     'it, missing where there is none, with the times of the bins. Traces '
     'keep start time, length and signal, those with a lower rate stay as '
     'they are.',
     ['inputs'], 'all matrices, rates, factors and bands (proved for band '
     'pass and decimation; bins and signals bounded)',
     'tests use constant rows',
     ['monitor/post_corr_process.py', 'utils/miic_utils.py'],
     [('band pass', 'monitor/post_corr_process.py:corr_mat_filter'),
      ('decimation', 'monitor/post_corr_process.py:corr_mat_decimate'),
      ('resampling', 'monitor/post_corr_process.py:corr_mat_resample_time'),
      ('bins', 'monitor/post_corr_process.py:corr_mat_resample'),
      ('traces', 'utils/miic_utils.py:resample_or_decimate')],
     built=True)

prop('C15', 'Gaps stay gaps and samples stay at their times',
     'Preprocessing of traces with missing samples keeps start time, number '
     'of samples and the position of every gap: masking hides exactly the '
     'samples inside the given intervals (or outside, if reversed), '
     'detrending, tapering and filtering treat every part between two gaps '
     'by itself, a gap is interpolated linearly exactly if it is short '
     'enough, pieces that are too short are discarded, and traces without '
     'data are removed.',
     ['inputs'], 'all traces, gaps and intervals (bounded)',
     'tests use a single gap in the middle of a trace',
     ['correlate/preprocessing_stream.py', 'utils/miic_utils.py'],
     [('masking', 'correlate/preprocessing_stream.py:trace_mask_at_utc'),
      ('detrending', 'correlate/preprocessing_stream.py:detrend_st'),
      ('taper', 'correlate/preprocessing_stream.py:cos_taper'),
      ('filter', 'correlate/preprocessing_stream.py:stream_filter'),
      ('interpolation', 'utils/miic_utils.py:interpolate_gaps'),
      ('gaps', 'utils/miic_utils.py:gap_handler')],
     built=True)

prop('C21', 'Results on disk are read back as they were',
     'A velocity change, a correlation matrix or a waveform coherence that '
     'is saved and read again has the same arrays, the same header (with '
     'times as a list, one per row, also for a single row) and the same '
     'record of the processing, and can be processed further. A pattern '
     'reads every readable file it matches and reports that there is none.',
     ['inputs'], 'all objects (bounded)',
     'tests mock numpy.load and numpy.savez',
     ['monitor/dv.py', 'monitor/wfc.py', 'correlate/stream.py',
      'utils/miic_utils.py'],
     [('velocity change', 'monitor/dv.py:DV.save'),
      ('reading it', 'monitor/dv.py:read_dv'),
      ('matrix', 'correlate/stream.py:read_corr_bulk'),
      ('coherence', 'monitor/wfc.py:read_wfc'),
      ('header', 'utils/miic_utils.py:load_header_from_np_array')],
     built=True)

prop('C25', 'Waveform coherence compares every correlation with its reference',
     'The coherence of a correlation with a reference is their normalised '
     'scalar product over the lapse time window on the chosen sides, for '
     'every window and reference, and missing where there are no data. '
     'Components are averaged over the available values and only if band '
     'and window agree; averages over time and the table of bands and '
     'windows hold every value at its frequency and lapse time. References '
     'of successive times are averages of the correlations in their time '
     'span. A run writes one file per station, band and window for any '
     'number of processes, every band starting from unfiltered data.',
     ['inputs', 'schedules'], 'all matrices, windows and references (proved '
     'for coherence, several windows, component average; others bounded)',
     'tests check shapes of random matrices',
     ['monitor/stretch_mod.py', 'monitor/monitor.py', 'monitor/wfc.py',
      'correlate/stream.py'],
     [('coherence', 'monitor/stretch_mod.py:compute_wfc'),
      ('references', 'monitor/stretch_mod.py:wfc_multi_reftr'),
      ('components', 'monitor/monitor.py:average_components_wfc'),
      ('run', 'monitor/monitor.py:Monitor.compute_waveform_coherence'),
      ('all stations',
       'monitor/monitor.py:Monitor.compute_waveform_coherence_bulk'),
      ('successive references',
       'correlate/stream.py:CorrBulk.extract_multi_trace')],
     built=True)

prop('C26', 'Maps of velocity changes solve the stated inverse problem',
     'Points on the map and distances follow from the coordinates, points '
     'outside are refused. The sensitivity kernel is the convolution of the '
     'intensities of the radiative transfer model from both stations over '
     'the lapse time, normalised by that between them, for every grid '
     'increment, lapse time and time step. The map is the least squares '
     'solution for the data variance and model covariance as defined, '
     'resolution, posterior covariance, truncated inverse and forward model '
     'belong to the same kernels, and only curves with a value at the time '
     'enter. Aligning moves the weighted mean of a curve around a time to '
     'the modelled value, once per curve, and touches no other curve.',
     ['inputs', 'histories'], 'all grids, stations and curves (proved for '
     'covariance, variance, intensity, distances, alignment; others bounded)',
     'tests mock the kernels and use unit spacing',
     ['monitor/spatial.py', 'monitor/dv.py'],
     [('intensity', 'monitor/spatial.py:probability'),
      ('kernel', 'monitor/spatial.py:sensitivity_kernel'),
      ('variance', 'monitor/spatial.py:data_variance'),
      ('map', 'monitor/spatial.py:DVGrid.compute_dv_grid'),
      ('alignment', 'monitor/spatial.py:align_dv_curves'),
      ('position', 'monitor/spatial.py:DVGrid._find_coord')],
     built=True)

prop('C27', 'The waveform archive returns what was put into it',
     'Whatever the order, gaps and day or year borders of the records '
     'stored, a request returns exactly the samples stored for its channel '
     'and time, the files of a day hold the samples of that day, data not '
     'there are asked for remotely with the same arguments and kept (with '
     'the responses of all channels) unless the store is read-only. The '
     'stations, channels and first and last days offered are those with '
     'files. The file system client finds the same samples in any of the '
     'documented file structures.',
     ['inputs', 'histories'], 'stored records, requests and file structures '
     '(bounded)',
     'no test writes or reads a waveform file',
     ['trace_data/waveform.py'],
     [('write', 'trace_data/waveform.py:Store_Client._write_local_data'),
      ('request', 'trace_data/waveform.py:Store_Client.get_waveforms'),
      ('offers', 'trace_data/waveform.py:Store_Client._get_times'),
      ('inventory', 'trace_data/waveform.py:Store_Client._write_inventory'),
      ('file structure', 'trace_data/waveform.py:read_from_filesystem')],
     built=True)

prop('C28', 'Several references combine into one curve',
     'Each reference is compared on its own with the same data and options. '
     'References that differ by a constant shift give one curve at the mean '
     'of theirs, identical references give the curve of one, whatever their '
     'number and order; the offset of two curves is the mean difference '
     'weighted by the inverse variance, over the values both have. '
     'Similarities are only moved along the stretch axis, never around its '
     'end, and a trace without correlation to any reference has no value.',
     ['inputs'], 'all data and windows (proved for the dispatch and '
     'windows; others bounded)',
     'no test uses more than one reference',
     ['monitor/stretch_mod.py'],
     [('one at a time', 'monitor/stretch_mod.py:multi_ref_vchange'),
      ('offsets', 'monitor/stretch_mod.py:est_shift_from_dt_corr'),
      ('combination',
       'monitor/stretch_mod.py:estimate_reftr_shifts_from_dt_corr'),
      ('windows', 'monitor/stretch_mod.py:time_windows_creation')],
     built=True)

prop('C29', 'Operations on a matrix of correlations do what they are named',
     'Every operation of a CorrBulk passes data, header and all its '
     'arguments to the function of its name, keeps what that returns, adds '
     'one step with its parameters to the history and returns the object; '
     'corrections use minus the measured change. Smoothing is the weighted '
     'mean with point reflection at the ends, decay correction divides by '
     'one exponential of the lapse time, and rows taken from the matrix '
     '(by number, as a stream, by time) carry their own data and times; '
     'copies share nothing.',
     ['inputs', 'histories'], 'all data and arguments (proved for the '
     'operations, corrections and reference; others bounded)',
     'tests mock the functions and check single calls',
     ['correlate/stream.py', 'monitor/post_corr_process.py'],
     [('operations', 'correlate/stream.py:CorrBulk.normalize'),
      ('corrections', 'correlate/stream.py:CorrBulk.correct_stretch'),
      ('rows', 'correlate/stream.py:CorrBulk.create_corr_stream'),
      ('smoothing', 'monitor/post_corr_process.py:corr_mat_smooth'),
      ('decay', 'monitor/post_corr_process.py:corr_mat_correct_decay')],
     built=True)

prop('C31', 'Data are prepared for the correlation as the options say',
     'A run uses exactly the stations the options name and that have data, '
     'the options of the user stay as they are. Each record is corrected '
     'for the response of its own station once, its polarity by the dip of '
     'its channel, resampled, and processed by the functions of the options '
     'in their order with their arguments; no sample where there was none '
     'appears except in filled gaps. Windows handed to the correlation have '
     'the length and spacing asked for and hold the prepared samples of '
     'their time only. Pairs beyond the distance limits are left out.',
     ['inputs'], 'records with gaps, inventories and options (bounded)',
     'tests mock the data store and look at one call each',
     ['correlate/correlate.py', 'utils/miic_utils.py', 'monitor/monitor.py'],
     [('preparation', 'correlate/correlate.py:preprocess_stream'),
      ('windows', 'correlate/correlate.py:generate_corr_inc'),
      ('stations', 'correlate/correlate.py:Correlator.__init__'),
      ('distance', 'utils/miic_utils.py:filter_stat_dist'),
      ('monitoring', 'monitor/monitor.py:Monitor.__init__')],
     built=True)

prop('C34', 'A spectrogram shows the spectra of the recorded data',
     'The spectral series of a channel has one spectrum for every full time '
     'window without gaps, in order of time, equal to the Welch estimate of '
     'the prepared samples of that window alone. The result does not depend '
     'on the number of processes, nor on which of them had data; the '
     'requests cover the time range asked for.',
     ['inputs', 'schedules'], 'records with gaps, windows, up to 4 processes '
     '(bounded)',
     'the only test mocks welch',
     ['utils/raw_analysis.py', 'trace_data/waveform.py'],
     [('series', 'utils/raw_analysis.py:spct_series_welch'),
      ('preparation', 'utils/raw_analysis.py:preprocess'),
      ('requests',
       'trace_data/waveform.py:Store_Client._generate_time_windows'),
      ('entry', 'trace_data/waveform.py:Store_Client.compute_spectrogram')],
     built=True)
