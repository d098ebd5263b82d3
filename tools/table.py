"""The properties, one dict each. tools/gen.py turns this into
properties.jsonl and MANIFEST.json."""

NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text,
            why=why, files=files, mech=mech, observe=observe,
            technique=technique, note=note,
        )
    )


PBT = "Hypothesis property-based testing"
G = (
    "Sampled, never exhaustive: a violation confined to a tiny region the "
    "generator rarely reaches can be missed. Trusts "
)

P(
    "C01", "Power spectra equal the one-sided Welch estimate",
    "For any real time series of one, two or three dimensions, the spectral density estimate equals the one-sided Welch estimate built from windowed, mean-removed, possibly overlapping segments averaged by mean or bias-corrected median, in units of power per hertz. The fast variant, which removes the mean of the whole series instead, equals the estimate built that way in every bin, and so agrees from the third bin up for Hann-type windows, and each channel's and batch element's result is independent of the others. Inputs are left unmodified and inconsistent arguments are rejected with a ValueError.",
    ["inputs", "configurations"],
    "all signals x segment lengths (even and odd) x strides (with and without leftover samples) x windows x sample rates x averaging x dtypes x ranks",
    "The tests compare with SciPy on a few fixed lengths with even segment length, white noise and one sample rate; the estimate must hold for every combination of lengths, leftovers, windows, scales and data.",
    ["ml4gw/spectral.py", "ml4gw/transforms/spectral.py"],
    [("segment, detrend, window, one-sided doubling, average", "ml4gw/spectral.py:spectral_density"), ("STFT-based estimate", "ml4gw/spectral.py:fast_spectral_density"), ("module defaults", "ml4gw/transforms/spectral.py:SpectralDensity")],
    ["ml4gw.spectral.spectral_density", "ml4gw.spectral.fast_spectral_density", "ml4gw.transforms.SpectralDensity"],
    PBT + ": differential against an independent float64 NumPy Welch estimate",
    G + "NumPy's FFT and SciPy's windows.",
)
P(
    "C02", "Cross-spectral densities equal the Welch cross-spectrum",
    "For any two compatible real time series the cross-spectral density equals the one-sided Welch cross-spectrum from the third frequency bin up, conj(first) times second, with the second series broadcast over channels exactly as its shape says. Swapping the two arguments conjugates the result and the cross-spectrum of a series with itself is its power spectrum. Incompatible shapes are rejected with a ValueError.",
    ["inputs", "configurations"],
    "all pairs of signals x all accepted shape combinations (1D/1D, 2D/1D, 2D/2D, 3D/1D, 3D/2D, 3D/3D) x segment lengths x strides x windows x mean/median",
    "Tests use fixed shapes of white noise and one stride; phase convention, broadcasting and normalisation must hold for all shape and parameter combinations.",
    ["ml4gw/spectral.py", "ml4gw/transforms/spectral.py"],
    [("cross-spectrum from STFTs", "ml4gw/spectral.py:fast_spectral_density"), ("shape rules", "ml4gw/spectral.py:_validate_shapes")],
    ["ml4gw.spectral.fast_spectral_density", "ml4gw.transforms.SpectralDensity"],
    PBT + ": differential against an independent NumPy cross-spectrum, plus symmetry relations",
    G + "NumPy's FFT and SciPy's windows.",
)
P(
    "C03", "Whitening applies the truncated inverse-spectrum filter",
    "Whitening a batch of time series divides its spectrum by the square root of the (interpolated) PSD through a filter whose impulse response is truncated to and tapered over the requested duration, with the requested high- and low-pass content removed, removes each channel's mean, preserves unit-variance scaling, and crops half the filter duration from each side. It is linear in the signal, treats every batch element and channel independently, gives the same answer for a PSD shared as 1D, 2D or 3D, and rejects kernels too short for the filter with a ValueError.",
    ["inputs", "configurations"],
    "all signals x PSDs (rank and resolution) x filter durations x sample rates x high/low-pass x tapering windows x kernel lengths",
    "Tests whiten white noise with a handful of settings and check statistics such as mean and variance; they do not pin the filter itself for arbitrary coloured spectra, PSD shapes and cut-offs.",
    ["ml4gw/spectral.py", "ml4gw/transforms/whitening.py"],
    [("inverse spectrum truncation", "ml4gw/spectral.py:truncate_inverse_power_spectrum"), ("filter, taper, crop", "ml4gw/spectral.py:normalize_by_psd"), ("mean removal, interpolation", "ml4gw/spectral.py:whiten"), ("module", "ml4gw/transforms/whitening.py:Whiten")],
    ["ml4gw.spectral.whiten", "ml4gw.transforms.Whiten"],
    PBT + ": differential against an independent float64 NumPy whitening, plus metamorphic relations",
    G + "NumPy's FFT; single-precision tolerances.",
)
P(
    "C04", "Fitted transforms keep and restore exactly what was fitted",
    "A transform with fitted parameters (fixed whitening, channel-wise scaling) refuses to run before it was fitted, and after fitting applies the parameters of its most recent fit and nothing else. Saving its state and loading it into a fresh, unfitted instance gives a transform with identical behaviour, wrong channel counts and kernel lengths are rejected, and undoing a scaling returns the original data. Fitting a scaler makes its fitting data zero-mean and unit-variance per channel.",
    ["histories", "inputs"],
    "all sequences of fit, refit, save, load into new or used instances, and apply, over all channel counts, backgrounds and sample values",
    "Tests exercise a single fit-then-apply sequence per transform; the guarantee ranges over histories (refit, reload, apply before fit) and inputs.",
    ["ml4gw/transforms/transform.py", "ml4gw/transforms/whitening.py", "ml4gw/transforms/scaler.py", "ml4gw/transforms/spectral.py"],
    [("fitted flag and state loading", "ml4gw/transforms/transform.py:FittableTransform"), ("fixed whitening", "ml4gw/transforms/whitening.py:FixedWhiten"), ("scaler", "ml4gw/transforms/scaler.py:ChannelWiseScaler")],
    ["ml4gw.transforms.FixedWhiten", "ml4gw.transforms.ChannelWiseScaler"],
    PBT + ": model-based operation sequences against a plain NumPy model",
    G + "PyTorch's state_dict machinery.",
)
P(
    "C05", "SNRs follow the matched-filter formula; reweighting hits the target",
    "The SNR of an interferometer response equals four times the frequency integral of its squared spectrum over the PSD, square-rooted, using only frequencies inside the requested band; the network SNR is the root-sum-square over interferometers. SNRs scale linearly with the signal and are unaffected by other batch elements, and after reweighting every waveform has the target network SNR and is otherwise only rescaled. Rescaling without targets permutes the batch's own SNRs.",
    ["inputs", "configurations"],
    "all response batches x PSDs (rank, resolution) x sample rates x band limits given as numbers or masks x target SNRs",
    "Tests compare one simulated batch with one set of parameters; band-edge handling, PSD interpolation and per-row targets must hold for all inputs.",
    ["ml4gw/gw.py", "ml4gw/transforms/snr_rescaler.py"],
    [("SNR integral and masks", "ml4gw/gw.py:compute_ifo_snr"), ("network SNR", "ml4gw/gw.py:compute_network_snr"), ("reweighting", "ml4gw/gw.py:reweight_snrs"), ("module", "ml4gw/transforms/snr_rescaler.py:SnrRescaler")],
    ["ml4gw.gw.compute_ifo_snr", "ml4gw.gw.compute_network_snr", "ml4gw.gw.reweight_snrs", "ml4gw.transforms.SnrRescaler"],
    PBT + ": differential against an independent NumPy integral, plus metamorphic relations",
    G + "NumPy's FFT; single-precision tolerances.",
)
P(
    "C06", "Detector responses project and delay as the geometry says",
    "For every sky position and polarization angle the antenna patterns and arrival-time shifts equal those of the physical detectors, and the observed strain at each interferometer is the sum of each polarization times its antenna pattern, shifted circularly by the whole number of samples given by the light travel time from the Earth's centre. The strain is linear in the polarizations and does not depend on the order they are given in (unknown polarizations are rejected), on other batch elements, or on which other interferometers are requested.",
    ["inputs", "configurations"],
    "all declinations, sidereal phases, polarization angles, polarization sets (plus, cross, breathing), detector networks, sample rates and waveforms",
    "Tests compare with a reference on one batch of random angles for a fixed network, at one sample rate and mostly two polarizations.",
    ["ml4gw/gw.py", "ml4gw/utils/interferometer.py", "ml4gw/transforms/waveforms.py", "ml4gw/constants.py"],
    [("antenna responses", "ml4gw/gw.py:compute_antenna_responses"), ("time shifts", "ml4gw/gw.py:shift_responses"), ("projection", "ml4gw/gw.py:compute_observed_strain"), ("detector data", "ml4gw/utils/interferometer.py:InterferometerGeometry")],
    ["ml4gw.gw.compute_antenna_responses", "ml4gw.gw.shift_responses", "ml4gw.gw.compute_observed_strain", "ml4gw.transforms.WaveformProjector"],
    PBT + ": differential against LAL detector responses and an independent NumPy projection",
    G + "LAL's detector table and response functions.",
)
P(
    "C07", "Windows cut from a time series hold exactly the right samples",
    "Unfolding a time series yields, in order, every full window at the requested stride, each holding exactly the samples it stands for, and the leftover samples are returned in full when asked for. Slicing kernels by index returns for every batch element and channel the samples that start at its own index, for every accepted combination of ranks. Index arrays whose shape does not match the data are rejected with a ValueError, and windows that would run past either end of the series are rejected rather than filled with other samples.",
    ["inputs", "configurations"],
    "all ranks, lengths, kernel sizes, strides, leftovers and index arrays (shared or per channel)",
    "Tests use a few lengths and strides; the guarantee is about index arithmetic for every length/size/stride combination, including exact fits and single windows.",
    ["ml4gw/utils/slicing.py"],
    [("unfold", "ml4gw/utils/slicing.py:unfold_windows"), ("slice", "ml4gw/utils/slicing.py:slice_kernels")],
    ["ml4gw.utils.slicing.unfold_windows", "ml4gw.utils.slicing.slice_kernels"],
    PBT + ": exact comparison with a direct slicing model on distinct-valued data",
    G + "only NumPy slicing.",
)
P(
    "C08", "Randomly sampled kernels are real windows obeying the offset rules",
    "Every randomly sampled kernel is a contiguous window of the series it was drawn from, with all channels aligned for coincident sampling and drawn per channel otherwise; returned indices, when asked for, are those of the returned windows. The kernel always lies inside the series and respects the maximum centre offset: within it for non-negative values, and containing the centre at least the requested distance from either edge for negative values, short of the very last position, which need not be reachable. Requests that cannot be met are rejected with a ValueError.",
    ["inputs", "configurations"],
    "all ranks, lengths, kernel sizes, offsets (none, zero, positive, negative), sample counts, coincident or not, and random states",
    "Tests check shapes and one range for a few settings and random draws; bounds must hold for every combination and draw.",
    ["ml4gw/utils/slicing.py"],
    [("index bounds and draws", "ml4gw/utils/slicing.py:sample_kernels"), ("slice", "ml4gw/utils/slicing.py:slice_kernels")],
    ["ml4gw.utils.slicing.sample_kernels"],
    PBT + ": validity predicate on distinct-valued data",
    G + "the documented meaning of max_center_offset as restated in DESIGN.md.",
)
P(
    "C09", "Augmentations and waveform sampling only pick, flip and invert",
    "Signal inversion and reversal leave every series either exactly as it was or exactly negated or time-reversed, with probabilities 0 and 1 meaning never and always, for any tensor shape. A waveform sampler returns rows that exist in its store, drawn independently, with every polarization and parameter taken from the same row, and returns the whole store in order when asked for everything. Mismatched or excessive requests are rejected with a ValueError.",
    ["inputs", "configurations"],
    "all tensor shapes, probabilities, store sizes, sample counts, polarization sets, parameter arrays and random states",
    "Tests check a few shapes and statistical frequencies; alignment and exactness must hold for every draw and shape.",
    ["ml4gw/augmentations.py", "ml4gw/transforms/waveforms.py"],
    [("inverter/reverser", "ml4gw/augmentations.py"), ("sampler", "ml4gw/transforms/waveforms.py:WaveformSampler")],
    ["ml4gw.augmentations.SignalInverter", "ml4gw.augmentations.SignalReverser", "ml4gw.transforms.WaveformSampler"],
    PBT + ": validity predicate on distinct-valued data",
    G + "nothing beyond tensor indexing.",
)
P(
    "C10", "The in-memory dataset yields exactly the windows it promises",
    "An in-memory dataset's epoch has exactly its stated number of batches, each of the requested size except possibly the last, and every yielded kernel is a true window of the series starting on its stride grid, with the target taken at the same place. Coincident epochs without a batch limit visit every window exactly once, in order when not shuffled; non-coincident epochs draw one grid window per channel. Every pass over the dataset obeys this afresh.",
    ["configurations", "histories"],
    "all series lengths, channels, kernel sizes, strides, batch sizes, batch limits, coincident/shuffle settings, targets, and repeated passes",
    "Tests cover a small grid of sizes; exact-cover and alignment must hold for every size combination including partial last batches and repeated epochs.",
    ["ml4gw/dataloading/in_memory_dataset.py"],
    [("index construction", "ml4gw/dataloading/in_memory_dataset.py:InMemoryDataset.init_indices"), ("iteration", "ml4gw/dataloading/in_memory_dataset.py:InMemoryDataset.__iter__")],
    ["ml4gw.dataloading.InMemoryDataset"],
    PBT + ": exact-cover model on distinct-valued data",
    G + "nothing beyond NumPy slicing.",
)
P(
    "C11", "The chunked dataset draws true windows from each chunk in turn",
    "From each chunk of time series it is given, the chunked dataset yields exactly the configured number of batches before moving to the next chunk, and every sample is, per channel, a contiguous window of one of that chunk's series. This holds for chunks of any size, including chunks whose length or batch size differ from one another. Coincident sampling takes all channels from the same window; chunks shorter than a kernel are rejected with a ValueError.",
    ["histories", "configurations", "inputs"],
    "all sequences of chunks (batch, channels, length), kernel sizes, batch sizes, batches per chunk, coincident or not, and random states",
    "Tests use one chunk shape repeated; sequences of differing chunks and window boundaries are never reached.",
    ["ml4gw/dataloading/chunked_dataset.py"],
    [("index arithmetic", "ml4gw/dataloading/chunked_dataset.py:ChunkedTimeSeriesDataset.__iter__")],
    ["ml4gw.dataloading.ChunkedTimeSeriesDataset"],
    PBT + ": validity predicate on distinct-valued chunk sequences",
    G + "nothing beyond NumPy slicing.",
)
P(
    "C12", "HDF5 batches hold true windows of the files, as configured",
    "Every kernel read from a set of HDF5 files is, channel by channel, a contiguous window of that channel's dataset in one of the files, with the channels in the requested order, for contiguous and chunked storage alike. Fully coincident sampling takes all channels from one file and time, file-coincident sampling from one file, and a limit on files per batch is respected; every recording position but possibly the last can be drawn, files in proportion to their length when no limit applies. Epoch lengths add up across workers and inconsistent requests are rejected.",
    ["configurations", "inputs", "histories"],
    "all file counts and lengths, channels, kernel sizes, batch sizes, coincidence modes, files-per-batch limits, storage layouts, worker counts and random states",
    "Tests use three files of fixed relative sizes and one kernel size; window validity must hold for every draw and layout.",
    ["ml4gw/dataloading/hdf5_dataset.py"],
    [("file and index sampling", "ml4gw/dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset.sample_batch"), ("worker split", "ml4gw/dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset.__iter__")],
    ["ml4gw.dataloading.Hdf5TimeSeriesDataset"],
    PBT + ": validity predicate on distinct-valued generated files",
    G + "h5py.",
)
P(
    "C13", "Streaming snapshots equal windows of the whole stream",
    "Feeding a stream to the snapshotter in updates of its fixed size yields exactly the overlapping snapshots one would cut from the full stream preceded by the initial state, for every update in any history, and returns a state that makes the next update continue seamlessly. Splitting channels into groups only splits the output; carrying the state from one instance to another changes nothing; wrong channel counts, groups that do not add up and strides not below the snapshot size are rejected.",
    ["histories", "configurations"],
    "all snapshot sizes, strides, batch sizes, channel counts and groupings, and all sequences of updates and hand-overs",
    "Tests run one or two updates on a few sizes; the guarantee is over whole histories of updates.",
    ["ml4gw/nn/streaming/snapshotter.py"],
    [("state hand-over and unfolding", "ml4gw/nn/streaming/snapshotter.py:Snapshotter.forward")],
    ["ml4gw.nn.streaming.Snapshotter"],
    PBT + ": model-based update histories against direct slicing of the full stream",
    G + "nothing beyond NumPy slicing.",
)
P(
    "C14", "The online averager streams the mean of overlapping predictions",
    "Over any history of updates the streamed output equals, sample by sample, the average of the last configured number of overlapping windows that cover that sample, offset as requested, with windows before the start of the stream counting as zero. Delivering the same windows one at a time or several per update gives the same stream, and each channel is averaged independently.",
    ["histories", "configurations"],
    "all window sizes, update sizes, batch sizes, averaging depths, offsets, channel counts and sequences of updates",
    "Tests check a few configurations with constant or simple inputs; the guarantee is over histories and arbitrary overlapping values.",
    ["ml4gw/nn/streaming/online_average.py"],
    [("weighted accumulation", "ml4gw/nn/streaming/online_average.py:OnlineAverager.forward")],
    ["ml4gw.nn.streaming.OnlineAverager"],
    PBT + ": model-based update histories against a direct average",
    G + "the documented update rule as restated in DESIGN.md.",
)
P(
    "C15", "Distributions sample what their densities describe",
    "Every parameter distribution draws only values inside its stated support, in the requested shape, and its log-density integrates to one over that support, is minus infinity outside it, and describes the values drawn. Cosmological redshift, distance and volume distributions agree, up to the resolution of their grids, with the comoving-volume element of the stated flat cosmology, including rate evolution, and delta functions always return their peak.",
    ["inputs", "configurations"],
    "all parameter values (bounds, powers, rates, scales), sample shapes and random states of every distribution",
    "Tests check bounds and a log-density at default or a few fixed parameters; normalisation and agreement of samples with densities must hold for all parameters.",
    ["ml4gw/distributions.py"],
    [("inverse-CDF sampling and log_prob", "ml4gw/distributions.py")],
    ["ml4gw.distributions"],
    PBT + ": numerical integration of densities, closed-form CDFs and Kolmogorov-Smirnov distances",
    G + "SciPy quadrature; sampling agreement is tested at a false-alarm level below 1e-9 per case.",
)
P(
    "C16", "IIR filtering equals SciPy's zero-phase filtering",
    "For every supported filter family, band type, order and cut-off, filtering any batch of series equals designing that filter with SciPy and applying it forwards and then backwards along time, each pass starting from rest, without clipping. Every batch element and channel is filtered independently and the input is not modified.",
    ["inputs", "configurations"],
    "all filter families x band types x orders x cut-offs x sample rates x ripples x signals and shapes",
    "Tests cover a fixed chirp with one cut-off per family.",
    ["ml4gw/transforms/iirfilter.py"],
    [("design and zero-phase application", "ml4gw/transforms/iirfilter.py:IIRFilter")],
    ["ml4gw.transforms.IIRFilter"],
    PBT + ": differential against SciPy filter design and an independent recurrence",
    G + "SciPy's filter design functions.",
)
P(
    "C17", "Shifted Pearson correlation equals the textbook coefficient",
    "For every shift from minus to plus the maximum, the result is the Pearson correlation coefficient between one zero-padded shifted series and the other, laid out with the shift first. It is invariant to offsets and positive scalings of the reference series, lies within [-1, 1], and broadcasts a shared reference series over batch and channels as its shape says; incompatible shapes are rejected.",
    ["inputs", "configurations"],
    "all series, shifts, batch and channel counts and reference ranks",
    "Tests loop over a fixed shift and two shapes with noise only.",
    ["ml4gw/transforms/pearson.py"],
    [("windowing and correlation", "ml4gw/transforms/pearson.py:ShiftedPearsonCorrelation")],
    ["ml4gw.transforms.ShiftedPearsonCorrelation"],
    PBT + ": differential against a direct NumPy computation, plus metamorphic relations",
    G + "nothing beyond NumPy.",
)
P(
    "C18", "Integrators equal their sequential definitions",
    "The top-hat integrator returns at each time the mean over the trailing window of the requested duration, both ends included, treating the past before the series as zero. The leaky integrator returns the running sum that increments by one value or decrements by the decay depending on the threshold, or the score itself when counts are not integrated, never below its lower bound. Both are causal and treat each row independently.",
    ["inputs", "configurations"],
    "all score series, thresholds, increments, decays, lower bounds, scalings, window lengths and sample rates",
    "Tests use short hand-written series with one setting; the parallel evaluation must equal the sequential recurrence for every series.",
    ["ml4gw/transforms/integrator.py"],
    [("convolution", "ml4gw/transforms/integrator.py:TophatIntegrator"), ("parallel clamp", "ml4gw/transforms/integrator.py:LeakyIntegrator")],
    ["ml4gw.transforms.TophatIntegrator", "ml4gw.transforms.LeakyIntegrator"],
    PBT + ": differential against a sequential reference model",
    G + "nothing beyond Python arithmetic.",
)
P(
    "C19", "Decimation keeps the scheduled samples at the scheduled rates",
    "Decimating a series by a schedule of (start, end, rate) segments keeps, for each segment, the samples of the original series at that segment's rate from its start, counted from the start of the schedule, in order and unaltered; splitting returns one piece per segment whose concatenation is the joint output. A schedule that is malformed, faster than the series, or inconsistent with its length is rejected with a ValueError.",
    ["inputs", "configurations"],
    "all sample rates, schedules (number of segments, durations, rates), batch and channel counts and series",
    "Tests use a few hand-written schedules; index arithmetic must hold for all.",
    ["ml4gw/transforms/decimator.py"],
    [("index schedule", "ml4gw/transforms/decimator.py:Decimator")],
    ["ml4gw.transforms.Decimator"],
    PBT + ": exact comparison with a direct index model on distinct-valued data",
    G + "nothing beyond NumPy indexing.",
)
P(
    "C20", "Heterodyning removes exactly the chirp phase of each mass",
    "Heterodyning rotates every positive-frequency component of each series by the documented leading-order inspiral phase of the requested chirp mass, 3/128 (pi M f)^(-5/3), leaves its magnitude unchanged and removes the zero-frequency component, with one output per chirp mass appended in the documented order. The time-domain output is the inverse transform of the frequency-domain output at the original length, and unknown return types are rejected.",
    ["inputs", "configurations"],
    "all series, chirp-mass lists, sample rates, lengths (even and odd), batch and channel counts and return types",
    "Tests check shapes and a couple of values.",
    ["ml4gw/transforms/heterodyne.py"],
    [("phase and transforms", "ml4gw/transforms/heterodyne.py:Heterodyne")],
    ["ml4gw.transforms.Heterodyne"],
    PBT + ": differential against an independent NumPy computation, plus magnitude invariance",
    G + "the leading-order chirp phase formula.",
)
P(
    "C21", "Multi-resolution spectrograms are the maximum over resolutions",
    "The multi-resolution spectrogram has the finest frequency and time size among its resolutions, and each of its pixels is the largest among the normalised spectrograms of the individual resolutions at the corresponding time and frequency. A single resolution reproduces the ordinary normalised spectrogram, every batch element and channel is independent, and inconsistent resolution lists are rejected with a ValueError.",
    ["inputs", "configurations"],
    "all signals, numbers of resolutions, FFT sizes, hop lengths, windows and shapes",
    "Tests check two or three fixed resolution sets and shapes.",
    ["ml4gw/transforms/spectrogram.py"],
    [("remapping and maximum", "ml4gw/transforms/spectrogram.py:MultiResolutionSpectrogram")],
    ["ml4gw.transforms.MultiResolutionSpectrogram"],
    PBT + ": differential against an independent NumPy/torchaudio computation",
    G + "torchaudio's single-resolution spectrogram.",
)
P(
    "C22", "The Q-transform measures energy in Gaussian-windowed tiles",
    "For every Q and frequency range, each row of the Q-transform is the squared magnitude of the signal filtered by the corresponding bi-square-windowed tile of GWpy's tiling, median- or mean-normalised when asked, and the spectrogram interpolates these rows on the requested grid. The plane with the largest energy, among those that have rows in the searched frequencies, is the one returned by a Q scan, results are independent across batch and channels, do not change when the same object is used again, and invalid requests are rejected with a ValueError.",
    ["inputs", "configurations", "histories"],
    "all signals, durations, sample rates, Q ranges, frequency ranges, mismatches, normalisations, spectrogram shapes, interpolation methods and repeated calls",
    "Tests compare with a reference implementation on a few fixed parameters and noise.",
    ["ml4gw/transforms/qtransform.py"],
    [("tile window and energy", "ml4gw/transforms/qtransform.py:QTile"), ("frequency tiling and interpolation", "ml4gw/transforms/qtransform.py:SingleQTransform"), ("Q scan", "ml4gw/transforms/qtransform.py:QScan")],
    ["ml4gw.transforms.SingleQTransform", "ml4gw.transforms.QScan"],
    PBT + ": differential against an independent NumPy Q-transform, plus metamorphic relations",
    G + "the published tiling formulas (as in GWpy).",
)
P(
    "C23", "Spline interpolation passes through the data and reproduces splines",
    "In one and two dimensions, spline interpolation agrees with the interpolating spline of the requested degree, whose knots are running means of the interior points, on every input grid: it returns the data at the data's own coordinates, reproduces polynomials up to the degree, and is linear in the data. Each batch element and channel is interpolated independently, points given at call time and at construction give the same values, and earlier calls do not affect later ones.",
    ["inputs", "configurations", "histories"],
    "all uniform and non-uniform grids, degrees 1 to 5, smoothing, data values and shapes, output points, and call histories",
    "Tests use two fixed functions on fixed grids with loose tolerances.",
    ["ml4gw/transforms/spline_interpolation.py"],
    [("knots and basis", "ml4gw/transforms/spline_interpolation.py:SplineInterpolateBase"), ("1D/2D evaluation", "ml4gw/transforms/spline_interpolation.py")],
    ["ml4gw.transforms.SplineInterpolate1D", "ml4gw.transforms.SplineInterpolate2D"],
    PBT + ": differential against SciPy splines, plus polynomial-reproduction and linearity relations",
    G + "SciPy's spline routines.",
)
P(
    "C24", "Normalisation and residual networks honour their layer contracts",
    "Group normalisation equals the textbook group normalisation for every group count, shape, affine setting and input scale. A residual network of any valid configuration maps each batch element to a finite output of the requested size that, in evaluation mode, does not depend on the rest of the batch, strides or dilates as requested, and loads a saved state to identical outputs; unsupported configurations are rejected.",
    ["configurations", "inputs"],
    "all channel/group counts, input lengths, kernel sizes, layer lists, stride types, norm layers, zero-initialisation, one and two dimensions",
    "Tests cover a grid of shapes and check only output shapes.",
    ["ml4gw/nn/norm.py", "ml4gw/nn/resnet/resnet_1d.py", "ml4gw/nn/resnet/resnet_2d.py"],
    [("group norm", "ml4gw/nn/norm.py:GroupNorm1D"), ("blocks", "ml4gw/nn/resnet/resnet_1d.py"), ("blocks", "ml4gw/nn/resnet/resnet_2d.py")],
    ["ml4gw.nn.norm", "ml4gw.nn.resnet"],
    PBT + ": differential against torch reference layers, plus metamorphic relations",
    G + "torch.nn reference layers.",
)
P(
    "C25", "State-space layers compute their causal linear recurrence",
    "The diagonal state-space kernel equals the response of its continuous system discretised by zero-order hold, for any parameters and length, and a layer's output at each time depends only on inputs up to then. Transposed and ordinary layouts give the same values, shorter inputs give a prefix of the longer input's output, and models treat batch elements independently.",
    ["inputs", "configurations"],
    "all model sizes, state sizes, lengths (even and odd), parameters, dropout settings, layouts and inputs",
    "Tests check output shapes for a few sizes.",
    ["ml4gw/nn/ssm/s4d.py"],
    [("kernel", "ml4gw/nn/ssm/s4d.py:S4DKernel"), ("FFT convolution", "ml4gw/nn/ssm/s4d.py:S4DLayer")],
    ["ml4gw.nn.ssm.s4d"],
    PBT + ": differential against an explicit recurrence in double precision, plus causality relations",
    G + "nothing beyond NumPy.",
)
P(
    "C26", "Convolutional autoencoders return an output shaped like their input",
    "For every valid configuration (channels, widths, kernel sizes, strides, groups, normalisation, activations, with or without skip connections) and input length, the autoencoder returns an output with the input's length and the requested output channels. Batch elements do not affect one another in evaluation mode, groups stay separate, skip connections combine each stage with its matching encoder stage, and decoding an encoding equals the full pass.",
    ["configurations", "inputs"],
    "all hidden-channel lists, kernel sizes, strides, groups, norms, activations, skip connections, output channels and input lengths",
    "There are no tests of the autoencoder at all.",
    ["ml4gw/nn/autoencoder/base.py", "ml4gw/nn/autoencoder/convolutional.py", "ml4gw/nn/autoencoder/skip_connection.py", "ml4gw/nn/autoencoder/utils.py"],
    [("encode/decode and state pairing", "ml4gw/nn/autoencoder/base.py:Autoencoder"), ("blocks and size matching", "ml4gw/nn/autoencoder/convolutional.py"), ("skip connections", "ml4gw/nn/autoencoder/skip_connection.py")],
    ["ml4gw.nn.autoencoder"],
    PBT + ": shape and metamorphic relations over generated architectures",
    G + "torch.nn layers.",
)
P(
    "C27", "Mass and spin conversions are exact and mutually consistent",
    "Chirp mass and mass ratio convert to component masses and back without loss, with the primary never lighter than the secondary, and total mass is conserved. Converting spin angles to source-frame Cartesian spins preserves spin magnitudes, agrees with the LALSimulation convention for inclination and all spin components, for every element independently, and reduces to aligned spins when tilts vanish.",
    ["inputs"],
    "all masses, mass ratios, spin magnitudes, tilts, azimuths, inclinations, reference frequencies and phases",
    "Tests check a few hundred random draws of some functions at loose tolerances and only some limits.",
    ["ml4gw/waveforms/conversion.py"],
    [("mass conversions", "ml4gw/waveforms/conversion.py"), ("spin rotations", "ml4gw/waveforms/conversion.py:bilby_spins_to_lalsim")],
    ["ml4gw.waveforms.conversion"],
    PBT + ": round-trips, invariants and a differential against LALSimulation",
    G + "LALSimulation's transformation.",
)
P(
    "C28", "TaylorF2 waveforms equal the LALSimulation model",
    "For all aligned-spin binaries in its domain, the TaylorF2 polarizations equal LALSimulation's TaylorF2 amplitude and phase at every frequency. They scale inversely with distance, follow the inclination and coalescence phase as prescribed, are symmetric under exchange of the two bodies, and each batch element is independent.",
    ["inputs"],
    "all chirp masses, mass ratios, aligned spins, distances, phases, inclinations, reference frequencies and frequency grids",
    "Tests check phase-insensitive overlaps for a handful of parameter sets.",
    ["ml4gw/waveforms/cbc/taylorf2.py"],
    [("phasing and amplitude", "ml4gw/waveforms/cbc/taylorf2.py:TaylorF2")],
    ["ml4gw.waveforms.TaylorF2"],
    PBT + ": differential against LALSimulation, plus metamorphic relations",
    G + "LALSimulation.",
)
P(
    "C29", "IMRPhenomD waveforms equal the LALSimulation model",
    "For all aligned-spin binaries in its domain, the IMRPhenomD polarizations equal LALSimulation's IMRPhenomD amplitude and phase at every frequency through the inspiral, intermediate and ringdown regions, up to the linear interpolation of the ringdown tables. They scale inversely with distance, follow inclination and coalescence phase as prescribed, and each batch element is independent.",
    ["inputs"],
    "all chirp masses, mass ratios of at most one, aligned spins, distances, phases, inclinations, reference frequencies and frequency grids",
    "Tests check phase- and scale-insensitive overlaps for six parameter sets.",
    ["ml4gw/waveforms/cbc/phenom_d.py", "ml4gw/waveforms/cbc/phenom_d_data.py", "ml4gw/waveforms/cbc/coefficients.py"],
    [("amplitude and phase", "ml4gw/waveforms/cbc/phenom_d.py:IMRPhenomD")],
    ["ml4gw.waveforms.IMRPhenomD"],
    PBT + ": differential against LALSimulation, plus metamorphic relations",
    G + "LALSimulation.",
)
P(
    "C30", "IMRPhenomPv2 waveforms equal the LALSimulation model",
    "For all precessing binaries in its domain, the IMRPhenomPv2 polarizations equal LALSimulation's IMRPhenomPv2 amplitude and phase at every frequency, up to the interpolation of the ringdown tables. For aligned spins their magnitudes reduce to IMRPhenomD's, they scale inversely with distance, a coalescence time shifts them in time by that many seconds, and each batch element is independent of the others.",
    ["inputs"],
    "all chirp masses, mass ratios of at most one, spin vectors, coalescence times, distances, phases, inclinations, reference frequencies and frequency grids",
    "Tests check phase-insensitive overlaps for four parameter sets.",
    ["ml4gw/waveforms/cbc/phenom_p.py"],
    [("precession angles and twist-up", "ml4gw/waveforms/cbc/phenom_p.py:IMRPhenomPv2")],
    ["ml4gw.waveforms.IMRPhenomPv2"],
    PBT + ": differential against LALSimulation, plus metamorphic relations",
    G + "LALSimulation.",
)
P(
    "C31", "Generated time-domain waveforms merge where and when requested",
    "The time-domain generator returns polarizations of exactly the requested duration and sample rate, free of wrap-around at the start, with the coalescence at the requested padding from the right edge, and equal to LALSimulation's conditioned time-domain waveform up to its stated tapering. Chirp-time and merger/ringdown bounds equal LALSimulation's, missing parameters are rejected and those the model does not take ignored, and each batch element is independent.",
    ["inputs", "configurations"],
    "all binary parameters, durations, sample rates, minimum and reference frequencies, right paddings and batch compositions",
    "Tests compare a fixed set of parameters at one duration.",
    ["ml4gw/waveforms/generator.py", "ml4gw/waveforms/cbc/utils.py"],
    [("conditioning, tapering, alignment", "ml4gw/waveforms/generator.py:TimeDomainCBCWaveformGenerator"), ("time bounds", "ml4gw/waveforms/cbc/utils.py")],
    ["ml4gw.waveforms.generator.TimeDomainCBCWaveformGenerator", "ml4gw.waveforms.cbc.utils"],
    PBT + ": differential against LALSimulation, plus alignment predicates",
    G + "LALSimulation.",
)
P(
    "C32", "Burst waveforms have the requested energy, frequency and decay",
    "Sine-Gaussian bursts equal LAL's for every quality, frequency, phase, eccentricity and root-sum-square amplitude and are centred in the requested window. Ringdowns equal the damped sinusoid of the requested frequency, quality and energy, starting at the window's reference time. Both have the requested length, scale with amplitude, and treat each batch element independently.",
    ["inputs", "configurations"],
    "all qualities, frequencies, amplitudes, phases, eccentricities, inclinations, durations, sample rates and batch compositions",
    "Tests compare sine-Gaussians on one parameter grid and ringdowns on shapes or a single formula.",
    ["ml4gw/waveforms/adhoc/sine_gaussian.py", "ml4gw/waveforms/adhoc/ringdown.py"],
    [("sine-Gaussian", "ml4gw/waveforms/adhoc/sine_gaussian.py:SineGaussian"), ("ringdown", "ml4gw/waveforms/adhoc/ringdown.py:Ringdown")],
    ["ml4gw.waveforms.SineGaussian", "ml4gw.waveforms.Ringdown"],
    PBT + ": differential against LALSimulation and an independent formula",
    G + "LALSimulation.",
)
P(
    "C33", "Results depend only on the inputs and the fitted state",
    "Every transform, generator, network in evaluation mode, sampler with a given seed and spectral or detector function is a pure function of its inputs, construction arguments and fitted state: calls leave the input tensors, the construction and fitting tensors and the module's state unmodified, and a result is not altered by later calls, nor does it depend on earlier calls, on other instances, on whether an earlier result was overwritten, on whether gradients are being recorded, or on the memory layout of the inputs. A deep copy, a pickled module and a module given the saved state compute the same. (The two in-place augmentations, SignalInverter and SignalReverser, are excepted.)",
    ["inputs", "configurations", "histories"],
    "all public computations x configurations x inputs x histories of calls, copies, reloads and overwritten results x memory layouts of the inputs",
    "Tests call each transform once on fresh contiguous tensors; a cache keyed too coarsely, an in-place operation on an input or a shared default is only seen in histories of calls.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/distributions.py", "ml4gw/transforms/", "ml4gw/nn/", "ml4gw/waveforms/", "ml4gw/utils/slicing.py", "ml4gw/dataloading/in_memory_dataset.py"],
    [("in-place arithmetic on intermediate values", "ml4gw/spectral.py:fast_spectral_density"), ("buffers read by the forward pass", "ml4gw/transforms/transform.py:FittableTransform"), ("precomputed tables", "ml4gw/waveforms/cbc/phenom_d.py:IMRPhenomD"), ("scatter into a registered buffer", "ml4gw/nn/streaming/online_average.py:OnlineAverager")],
    ["ml4gw.transforms", "ml4gw.nn", "ml4gw.waveforms", "ml4gw.spectral", "ml4gw.gw"],
    PBT + ": random histories of calls over a registry of all public computations, against a fresh instance on fresh inputs",
    G + "PyTorch's copying and pickling.",
)
P(
    "C34", "Gradients are the derivatives of the results",
    "Where a transform, waveform model, network or spectral or detector function is smooth in its inputs, the gradient that automatic differentiation returns is finite and equals the derivative of the result with respect to every input tensor it depends on, including the binary parameters of the time-domain generator, and for networks with respect to every parameter. No differentiable result is cut off from its inputs.",
    ["inputs", "configurations"],
    "all differentiable public computations x configurations x inputs x directions",
    "The tests check gradients of one binary through the generator and that the gradients of one network are finite; a detached intermediate value, an in-place write or a masked infinity changes gradients without changing any result.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/transforms/", "ml4gw/nn/", "ml4gw/waveforms/"],
    [("conditioning differentiable in the binary's parameters", "ml4gw/waveforms/generator.py:TimeDomainCBCWaveformGenerator"), ("masked undefined phase", "ml4gw/transforms/heterodyne.py:Heterodyne")],
    ["ml4gw.transforms", "ml4gw.nn", "ml4gw.waveforms", "ml4gw.spectral", "ml4gw.gw"],
    PBT + ": autograd against difference quotients along random directions",
    G + "difference quotients of several steps, the best of which is compared.",
)
P(
    "C35", "Elements of a batch are computed independently",
    "In every batched computation of the package (spectra, whitening, SNRs, detector responses, windows, filters, correlations, integrators, decimation, heterodyning, spectrograms, Q-transforms, splines, streaming modules, networks in evaluation mode, waveform models, conversions and densities) the result of a batch element or channel is the same whichever elements accompany it, in whichever order, how often and how many, and however loud they are. (The Q scan and the time-domain generator choose one Q and one frequency grid per batch; there the order of elements does not matter.)",
    ["inputs", "configurations"],
    "all batched public computations x configurations x inputs x selections of elements along every axis of independent elements, up to 150 of them and with elements up to six orders of magnitude apart",
    "Tests feed batches of a few alike elements to one computation at a time; a reduction over one axis too many, a normalisation shared by the batch or a broadcast along the wrong axis is only seen by comparing selections of a batch with the whole.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/transforms/", "ml4gw/nn/", "ml4gw/waveforms/", "ml4gw/utils/", "ml4gw/distributions.py"],
    [("batch dimension rolled out and back", "ml4gw/spectral.py:fast_spectral_density"), ("channels folded into the batch", "ml4gw/transforms/decimator.py:Decimator"), ("one grid for all elements", "ml4gw/waveforms/generator.py:TimeDomainCBCWaveformGenerator")],
    ["ml4gw.transforms", "ml4gw.nn", "ml4gw.waveforms", "ml4gw.spectral", "ml4gw.gw"],
    PBT + ": metamorphic relation (selecting elements before or after the computation) over a registry of all batched computations",
    G + "the table of axes along which elements are independent (pbt/batches.py).",
)
P(
    "C36", "Results are homogeneous in the units of the data",
    "Multiplying data, PSDs, windows, target SNRs, polarizations or distances by a constant multiplies the results by the power of it that their units say: spectra and energies are quadratic, whitened data and filtered, sliced, shifted, decimated, heterodyned or interpolated series linear, SNRs linear in the data and inverse in the amplitude density, waveforms inverse in the distance, and correlations and normalised energies unchanged. No result depends on the absolute size of its input, down to that of gravitational-wave strain.",
    ["inputs", "configurations"],
    "all public computations on physical data x configurations x inputs x factors of up to 2**150 and down to 2**-150 where precision allows",
    "Tests use data of order one; strain is of order 1e-21, where an absolute floor, a clamp, an added epsilon or a cast to single precision destroys the result without failing any test.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/transforms/", "ml4gw/waveforms/", "ml4gw/nn/streaming/"],
    [("precision raised before squaring", "ml4gw/spectral.py:fast_spectral_density"), ("squares of correlations", "ml4gw/transforms/pearson.py:ShiftedPearsonCorrelation"), ("back to single precision", "ml4gw/gw.py:compute_ifo_snr")],
    ["ml4gw.transforms", "ml4gw.waveforms", "ml4gw.spectral", "ml4gw.gw"],
    PBT + ": metamorphic relation (scaling by powers of two, which is exact) over a registry of all computations on data",
    G + "the table of degrees (pbt/checks/c36.py).",
)
P(
    "C37", "Randomness comes from the seeded generators, and nothing else moves",
    "Every random component (distributions, augmentations, waveform sampling, SNR shuffling, kernel sampling, the three datasets, dropout and the initialisation of networks) draws afresh on each call, reproduces its draws under the same seed of the global generators however often it or another was used before, draws otherwise under another seed, also from a copy as data-loading workers hold it, and never resets a generator. Every deterministic computation leaves the generators alone and does not depend on them. No call, whether it succeeds or fails, changes the process around it: the default type and device, gradient mode, threads, precision settings, warnings filters, floating-point error handling, streams or working directory.",
    ["inputs", "configurations", "histories"],
    "all public computations and random components x configurations x seeds x sequences of calls, failing calls and backward passes",
    "Tests seed nothing or look at one draw; a generator reseeded or created with a fixed seed, a mask drawn once, or a global setting changed on the way leaves each single result plausible.",
    ["ml4gw/distributions.py", "ml4gw/augmentations.py", "ml4gw/transforms/", "ml4gw/dataloading/", "ml4gw/utils/slicing.py", "ml4gw/nn/", "ml4gw/waveforms/"],
    [("draws of datasets", "ml4gw/dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset"), ("shuffling of SNRs", "ml4gw/transforms/snr_rescaler.py:SnrRescaler"), ("initial timescales", "ml4gw/nn/ssm/s4d.py:S4DKernel")],
    ["ml4gw.distributions", "ml4gw.augmentations", "ml4gw.transforms", "ml4gw.dataloading", "ml4gw.nn", "ml4gw.waveforms"],
    PBT + ": histories of seeded draws compared with one another, and invariants on the process's state around every call",
    G + "the ways of reading the process's state (pbt/checks/c37.py).",
)
P(
    "C38", "Computations stay on the device of their inputs",
    "A transform, network, waveform model, generator, streaming module or spectral or detector function whose state and inputs are on some device computes there, returns its results there, and returns what it returns on the CPU: whether the module was moved after use, as a copy, as a member of a larger model or back and forth, and wherever it was fitted. Distributions sample and evaluate on the device of their bounds, datasets given a device yield their batches there, and augmentations, kernel sampling and streaming states follow their inputs or module. (Distributions whose bounds are numbers, and WaveformSampler, work on the CPU.)",
    ["inputs", "configurations", "histories"],
    "all public computations x configurations x inputs x ways to bring the state to the device x interleavings of fits and moves, on an emulated second device",
    "The test suite has no second device, so a window, grid, index or buffer created on the CPU in the middle of a computation passes every test and fails for every user with a GPU.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/distributions.py", "ml4gw/augmentations.py", "ml4gw/transforms/", "ml4gw/nn/", "ml4gw/waveforms/", "ml4gw/utils/", "ml4gw/dataloading/"],
    [("knots and bases", "ml4gw/transforms/spline_interpolation.py:SplineInterpolate1D"), ("window for fitting", "ml4gw/transforms/transform.py:FittableSpectralTransform"), ("chunks moved on loading", "ml4gw/dataloading/chunked_dataset.py:ChunkedTimeSeriesDataset")],
    ["ml4gw.transforms", "ml4gw.nn", "ml4gw.waveforms", "ml4gw.spectral", "ml4gw.gw", "ml4gw.distributions", "ml4gw.dataloading"],
    PBT + ": differential against the CPU on an emulated second device that refuses mixed operations, over a registry of all public computations",
    G + "the emulated device (pbt/device.py), not real hardware.",
)
P(
    "C39", "Arguments by position, by name or left out mean what is documented",
    "Every public constructor, function and method gives the same result whether an argument is passed by position (in the documented order), by name in any order, or, where it has a documented default, left out: options left out mean their documented default or the default derived from the other arguments (half of the window as overlap, the activation as output activation, all files, all groups, a state of zeros, the end-to-end range), and passing that meaning explicitly changes nothing. A rate evolution or a wrapper that forwards its arguments forwards them unchanged.",
    ["inputs", "configurations"],
    "all public callables x values of their options x ways to write the call",
    "Tests write each call one way, mostly naming every option. A changed default, two parameters exchanged in a signature, an option not passed on, or a meaning of None that differs from the documented one fails none of them and silently changes every user's results.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/distributions.py", "ml4gw/transforms/", "ml4gw/nn/", "ml4gw/dataloading/", "ml4gw/utils/", "ml4gw/waveforms/"],
    [("defaults of the scans", "ml4gw/transforms/qtransform.py:QScan"), ("derived overlap", "ml4gw/transforms/spectral.py:SpectralDensity"), ("cosmology", "ml4gw/distributions.py:UniformComovingVolume")],
    ["ml4gw.transforms", "ml4gw.nn", "ml4gw.waveforms", "ml4gw.spectral", "ml4gw.gw", "ml4gw.distributions", "ml4gw.dataloading", "ml4gw.utils"],
    PBT + ": differential between two ways of writing the same call, over a registry of the public callables with their documented arguments",
    G + "the table of documented arguments and defaults (pbt/checks/c39.py).",
)
P(
    "C40", "The pieces agree with one another along whole pipelines",
    "Streaming a series through snapshotter, model and averager gives sample by sample what averaging the model's output over all windows of the whole series gives offline, and dataset, unfolding, streaming and sampling cut the same windows from the same series. A burst's requested energy, its integrated power spectrum, its SNR over a spectrum, the power it has after whitening with that spectrum, and the target it was rescaled to are one number in consistent units, also after projection onto any network of detectors, where the SNRs are those the antenna patterns let through. Noise coloured by a spectrum is white again, sample by sample, after whitening with it; fitting a whitener to data is whitening with the data's spectrum; inverting or reversing a signal commutes with whitening and filtering and leaves its SNR. The Q-transform of a sine-Gaussian is loudest at its time and frequency, and kernels drawn from chunks drawn from files are windows of the files.",
    ["inputs", "configurations", "histories"],
    "all pipelines of two or more components: rates, sizes, spectra, bursts, networks, update histories and files",
    "Each component's tests fix its own conventions (units, normalisation, time origin, order, offsets); nothing checks that the conventions of one are those the next relies on, at any rate, size or spectrum but one.",
    ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/transforms/", "ml4gw/nn/streaming/", "ml4gw/dataloading/", "ml4gw/utils/slicing.py", "ml4gw/waveforms/adhoc/", "ml4gw/augmentations.py"],
    [("streaming pair", "ml4gw/nn/streaming/online_average.py:OnlineAverager"), ("units of SNR", "ml4gw/gw.py:compute_ifo_snr"), ("units of whitened data", "ml4gw/spectral.py:normalize_by_psd")],
    ["ml4gw.nn.streaming.Snapshotter", "ml4gw.nn.streaming.OnlineAverager", "ml4gw.spectral.whiten", "ml4gw.gw.compute_ifo_snr", "ml4gw.transforms.SnrRescaler", "ml4gw.transforms.SingleQTransform", "ml4gw.dataloading"],
    PBT + ": metamorphic and differential relations between components: offline against streamed, energy in time, frequency and after whitening, geometry against projection, files against kernels",
    G + "smooth spectra and bursts inside the window, for which the relations are exact but for the truncation of the whitening filter.",
)
