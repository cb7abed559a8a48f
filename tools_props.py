"""writes properties.jsonl (kept as a script so statements stay in one readable place)"""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe or [], hook_needed=None,
            ),
        )
    )


I = ["inputs"]
IC = ["inputs", "configurations"]
prop("S01", "Unfolding and slicing return exactly the requested samples",
     "Unfolding a series with any window and stride yields windows whose sample j of window w is sample w*stride+j of the input for every leading dimension, and the optional remainder is exactly the unused tail. "
     "Slicing kernels at given start indices returns, for one-, two- and three-dimensional inputs and for shared or per-channel indices, precisely the samples that begin at each index of the matching batch element and channel, leaving its arguments unmodified.",
     IC, "all sample values, all admissible start indices, all listed shapes/strides",
     "Tests use a few arange tensors and random indices; an index mix-up that only shows for some (batch, channel, stride) combination is not reached.",
     ["ml4gw/utils/slicing.py"], [("unfold/dilated im2col", "ml4gw/utils/slicing.py:unfold_windows"), ("gather index arithmetic", "ml4gw/utils/slicing.py:slice_kernels")])
prop("S02", "Random kernel sampling only draws admissible windows",
     "Every randomly sampled kernel is a contiguous run of the input lying wholly inside it, coincident across channels (or from the same batch element) when requested and otherwise chosen independently per channel, the returned start indices are the ones used, and every admissible start but possibly the very last can be drawn. A non-negative centre offset keeps the series centre within or after the left edge and the right edge no further than that offset before the centre; a negative one keeps the centre at least that far from both edges; impossible requests are rejected.",
     IC, "every value the random index generator may return, every sample value",
     "Tests sample a handful of random draws; the extreme admissible draws occur with vanishing probability.",
     ["ml4gw/utils/slicing.py"], [("index bounds", "ml4gw/utils/slicing.py:sample_kernels")])
prop("D01", "In-memory iteration visits every window exactly once, in step with targets",
     "One pass over an in-memory dataset of coincident windows yields exactly the advertised number of batches, and together they contain each stride-spaced window start once (deterministic order without shuffling, a permutation with it), an incomplete final batch being dropped only when asked; when a number of batches is requested, exactly that many full batches of distinct windows are produced. Non-coincident iteration draws each channel's start from the same grid, deterministic iteration enumerating distinct combinations, and targets are always the values aligned with the windows returned.",
     ["inputs", "configurations", "histories"], "all permutations the shuffler may draw, all contents, every listed size/stride/batch configuration, repeated epochs",
     "Tests check a few fixed sizes with one random permutation each.",
     ["ml4gw/dataloading/in_memory_dataset.py"], [("batch index construction", "ml4gw/dataloading/in_memory_dataset.py:InMemoryDataset.__iter__")])
prop("D02", "Chunked loading yields windows that lie inside a single chunk element",
     "Every kernel produced from a stream of chunks is a contiguous window of one element of the chunk that is current at the time, its channels coming from the same element and time when coincident sampling is requested and independently otherwise, and every window of the chunk, including the last, can be drawn. The number of batches per chunk and their shape are as configured for every chunk, including when successive chunks differ in length.",
     ["inputs", "configurations", "histories"], "all random draws, all chunk contents, sequences of chunks with equal and differing shapes",
     "Tests use constant-shape chunks and random draws whose extreme values are not hit.",
     ["ml4gw/dataloading/chunked_dataset.py"], [("flattened index arithmetic", "ml4gw/dataloading/chunked_dataset.py:ChunkedTimeSeriesDataset.iter_epoch")])
prop("D03", "HDF5 loading returns in-bounds windows of the right file, channel and time",
     "Each batch element of an HDF5-backed dataset is, per channel, a contiguous window lying inside a dataset of one of the configured files, stored under the channel it belongs to; fully coincident sampling uses one file and start for all channels, file-coincident sampling one file, and otherwise channels are independent; every window of every file, including the last, can be drawn. The number of batches produced by all workers together equals the requested number per epoch.",
     ["inputs", "configurations"], "all random file/start draws, several files of different length, every coincidence mode, all worker counts",
     "Tests use at most a few files and random draws; mis-assigned rows only show for particular draw patterns.",
     ["ml4gw/dataloading/hdf5_dataset.py"], [("index bookkeeping", "ml4gw/dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset.sample_batch"), ("worker split", "ml4gw/dataloading/hdf5_dataset.py:Hdf5TimeSeriesDataset.__iter__")])
prop("G01", "Antenna responses follow the tensor geometry of source and detector",
     "For every sky position, polarization angle and detector tensor, the antenna response of a mode equals the double contraction of the detector tensor with that mode's polarization tensor built from the wave frame of the source. "
     "Consequently plus and cross rotate by twice the polarization angle, breathing is independent of it, the tensor modes are traceless and transverse to the propagation direction, and each batch element and detector depends only on its own inputs.",
     I, "all angles, all symmetric detector tensors",
     "Tests compare a few random samples with another implementation.",
     ["ml4gw/gw.py"], [("wave frame and contraction", "ml4gw/gw.py:compute_antenna_responses"), ("mode tensors", "ml4gw/gw.py:plus/cross/breathing")])
prop("G02", "Projected strain is the antenna-weighted sum delayed by light-travel time",
     "The observed strain in each detector equals the sum over modes of antenna response times waveform, circularly shifted by the whole number of samples of the arrival-time difference between that detector and the geocentre for the source direction. "
     "The shift is applied identically to every sample, per batch element and detector, whatever the sign of the delay.",
     IC, "all waveforms, all sky angles and detector vertices within a few samples of light travel, every delay value",
     "Tests use a few fixed detectors; off-by-one or sign errors of particular delays are averaged away.",
     ["ml4gw/gw.py"], [("integer shift by gather", "ml4gw/gw.py:shift_responses"), ("projection", "ml4gw/gw.py:compute_observed_strain")])
prop("G03", "SNR is the noise-weighted norm over the requested band",
     "The optimal SNR of a signal equals the square root of four times the frequency-spaced sum of squared Fourier amplitude over PSD restricted to frequencies at or above the high-pass and below the low-pass value, the PSD being interpolated to the signal's bins when its resolution differs. "
     "Network SNR is the root-sum-square over detectors, SNR scales linearly with the signal, and reweighting returns each signal scaled by a positive factor so that its network SNR equals its target.",
     I, "all signals, all positive PSDs, all cutoffs on or between bins",
     "Tests compare a few random draws at loose tolerance with one PSD shape.",
     ["ml4gw/gw.py"], [("SNR integral", "ml4gw/gw.py:compute_ifo_snr"), ("reweighting", "ml4gw/gw.py:reweight_snrs")])
prop("G04", "Detector geometry is well formed and order preserving",
     "For every named detector, the stored arms are unit vectors orthogonal to within detector tolerance, the vertex lies at Earth-surface distance, and the response tensor is half the difference of the arm outer products, hence symmetric and trace free; all agree with the geometry published for LAL. "
     "Requesting several detectors returns their tensors and vertices stacked in exactly the requested order, for every ordering and repetition.",
     ["configurations"], "all detectors, all ordered selections",
     "Tests look at two or three detectors in a fixed order.",
     ["ml4gw/utils/interferometer.py", "ml4gw/gw.py"], [("geometry table", "ml4gw/utils/interferometer.py"), ("stacking", "ml4gw/gw.py:get_ifo_geometry")])
prop("P01", "Parameter samples lie in the declared range with the declared law",
     "For every uniform random number the underlying generator may produce, each prior distribution returns samples inside its declared interval, and the map from uniform number to sample inverts the declared cumulative distribution, up to reflecting the draw (cosine, sine, log-uniform, power-law of any index, delta, comoving volume and rate-weighted comoving volume to within the grid resolution). "
     "Requested sample shapes are honoured and each sample depends only on its own draw.",
     IC, "all uniform draws, all bounds/indices in the listed ranges",
     "Tests check histograms of random samples at loose tolerance.",
     ["ml4gw/distributions.py"], [("inverse transforms", "ml4gw/distributions.py:*.rsample")])
prop("P02", "Log densities match the sampled law",
     "For each prior distribution the log density is, inside the declared support, the logarithm of the normalized density of the declared law (to within the grid resolution for the tabulated comoving-volume laws), and minus infinity outside unless argument validation rejects the value. "
     "Evaluating a density does not depend on other batch elements nor modify its argument.",
     I, "all values inside and outside the support, all listed bounds/indices",
     "Tests evaluate a few points.",
     ["ml4gw/distributions.py"], [("log_prob", "ml4gw/distributions.py:*.log_prob")])
prop("F01", "Spectral density estimates are the Welch/median average of windowed segments",
     "The power spectral density of a series equals the mean, or bias-corrected median, over overlapping segments of the windowed, one-sided, scaled squared Fourier amplitude, and the cross spectral density its two-series counterpart, per channel and batch element. "
     "The fast variant agrees with it in every bin it claims (all but the first two), quadruples when the input doubles and is invariant to the sign of the input.",
     IC, "all sample values; lengths, strides, windows, averages and dimensionalities listed",
     "Tests compare random noise with scipy in a few configurations and only in aggregate tolerance.",
     ["ml4gw/spectral.py"], [("segment FFT", "ml4gw/spectral.py:fast_spectral_density"), ("stft average", "ml4gw/spectral.py:spectral_density"), ("median bias", "ml4gw/spectral.py:median")])
prop("F02", "Whitening filters have compact support and whiten at the requested band",
     "The inverse spectrum used for whitening is that of the inverse amplitude spectrum, zeroed below the requested high-pass and from the requested low-pass on, after its impulse response is tapered to the requested filter duration and zeroed elsewhere, so it has no correlation beyond that duration. Whitening subtracts the mean of a series, convolves it circularly with that filter, divides by the square root of the sample rate and removes half the filter duration from each edge (nothing when not asked to or when that is zero samples); it acts per batch element and channel with that channel's spectrum (interpolated when its length differs; fitted backgrounds may be series or spectra, with the requested segment length and overlap), and leaves its inputs unmodified.",
     IC, "all series, all positive spectra, listed durations/rates/cutoffs",
     "Tests check statistics of whitened noise.",
     ["ml4gw/spectral.py", "ml4gw/transforms/whitening.py"], [("spectrum truncation", "ml4gw/spectral.py:truncate_inverse_power_spectrum"), ("filter and crop", "ml4gw/spectral.py:normalize_by_psd")])
prop("T01", "Channel-wise scaling standardizes and is exactly invertible",
     "After fitting, scaling subtracts the fitted per-channel mean and divides by the fitted per-channel (biased) standard deviation of the background plus the requested regularization, broadcast over the right dimensions for inputs of any dimensionality. The reverse operation recovers the input exactly for every value, and vice versa; data whose shape does not match the channels are rejected when fitting.",
     I, "all background data and all inputs",
     "Tests check a couple of random tensors.",
     ["ml4gw/transforms/scaler.py"], [("fit/forward/reverse", "ml4gw/transforms/scaler.py:ChannelWiseScaler")])
prop("T02", "SNR rescaling hits the requested network SNR",
     "The rescaling transform multiplies each multi-detector response by one positive factor common to its detectors so that its network SNR under the fitted background and band equals the target given for that element, or a batch permutation (any can occur) of the input SNRs when no target is given. The targets it reports are the ones applied, and responses and targets passed in are not modified.",
     I, "all responses, all fitted PSDs, all targets, every permutation drawn",
     "Tests use one random background and approximate comparisons.",
     ["ml4gw/transforms/snr_rescaler.py"], [("rescale", "ml4gw/transforms/snr_rescaler.py:SnrRescaler.forward")])
prop("T03", "Waveform sampling keeps parameters and polarizations aligned",
     "Sampling from a waveform bank returns the requested number of bank entries, each possibly any entry of the bank, with every polarization and the parameter row taken from the same entry; asking for all entries returns the bank in order, and asking for more than available or giving polarizations and parameters of different lengths is rejected. The projector returns, for every element of a batch, the observed strain of its polarizations in the named detectors, in the order named.",
     ["inputs", "configurations"], "all bank contents, all permutations drawn",
     "Tests check shapes and a few draws.",
     ["ml4gw/transforms/waveforms.py"], [("shared index", "ml4gw/transforms/waveforms.py:WaveformSampler.forward"), ("projection", "ml4gw/transforms/waveforms.py:WaveformProjector.forward")])
prop("T04", "Q-transform tiles measure windowed spectral energy at their nominal frequency",
     "Each Q-transform row is the squared magnitude of the inverse transform of the input spectrum multiplied by GWpy's normalized bisquare window, whose width is set by Q, centred on the bin after that row's nominal frequency (bins clamped to the spectrum); with median or mean normalization it is divided by that statistic, so it is invariant to rescaling the signal. Frequencies and Qs tile the requested ranges (which are not modified), interpolated spectrograms have exactly the requested shape, the loudest tile over a frequency search range considers exactly the rows in it, and in a multi-Q scan the plane containing the loudest tile is the one returned.",
     IC, "all series; listed durations, rates, Qs, mismatches",
     "Tests compare a few random series with gwpy for default settings.",
     ["ml4gw/transforms/qtransform.py"], [("tile window/indices", "ml4gw/transforms/qtransform.py:QTile"), ("scan", "ml4gw/transforms/qtransform.py:QScan")])
prop("T05", "Variable-rate decimation keeps the right time samples",
     "With a schedule of (start, end, rate) rows, decimating keeps exactly the input samples at times start + k/rate of each row (times counted from the start of the schedule), in order, for every channel and batch element, including schedules with gaps, late starts or rows of a single sample; the split form returns each row's samples separately with the same content and also allows overlapping rows. Schedules whose rates do not divide the input rate, that overlap in the unsplit form or have rows of non-positive length, and inputs of the wrong length, are rejected.",
     IC, "all inputs; schedules with one to three segments, starting at or after zero",
     "Tests check output length for one or two schedules.",
     ["ml4gw/transforms/decimator.py"], [("index construction", "ml4gw/transforms/decimator.py:Decimator.build_variable_indices")])
prop("T06", "Heterodyning removes the inspiral phase of each chirp mass",
     "Heterodyning multiplies each positive-frequency bin of each channel by a unit-modulus phase equal to 3/128 times the minus five-thirds power of pi times chirp mass (in seconds) times frequency, and zeroes the zero-frequency bin, for every chirp mass given. It is linear in the data, keeps spectral amplitude (divided by the sample rate), and acts per batch element and channel; the time-domain form is the inverse transform of the frequency-domain form and has the length of the input, even or odd.",
     IC, "all inputs, listed chirp masses and lengths",
     "Tests check shapes and one recovered property.",
     ["ml4gw/transforms/heterodyne.py"], [("phase", "ml4gw/transforms/heterodyne.py:Heterodyne.forward")])
prop("T07", "Shifted Pearson correlation is the true correlation at every lag",
     "For each lag between minus and plus the maximum shift the transform returns the Pearson correlation of the second series with the first one shifted by that lag (zeros entering from outside), ordered from most negative to most positive lag, the second series being broadcast over leading dimensions it lacks. Values equal one at zero lag for identical inputs, do not change when either input is positively rescaled or the second one is offset, and mismatched shapes are rejected.",
     IC, "all non-constant inputs, listed lengths, shifts and dimensionalities",
     "Tests compare random input with scipy for a couple of shapes.",
     ["ml4gw/transforms/pearson.py"], [("windowed correlation", "ml4gw/transforms/pearson.py:ShiftedPearsonCorrelation.forward")])
prop("T08", "IIR filtering is the zero-phase application of the designed filter",
     "The filter transform applies the digitally designed transfer function forwards and then backwards along the last axis of each series, starting at rest and without clipping, independently per leading index, so it is linear and agrees with the direct difference-equation recursion of the filter's coefficients run in both directions. The filter coefficients are those of the requested family, band type, order, edge frequencies, ripple and attenuation at the given sample rate, whether given as numbers or tensors.",
     IC, "all inputs; listed filter designs",
     "Tests compare a few random inputs with scipy at loose tolerance.",
     ["ml4gw/transforms/iirfilter.py"], [("design", "ml4gw/transforms/iirfilter.py:IIRFilter.__init__"), ("filtfilt", "ml4gw/transforms/iirfilter.py:IIRFilter.forward")])
prop("T09", "Integrators are causal and follow their recursions",
     "The top-hat integrator outputs, at each time, the average of the input over the trailing window of integration length times sample rate plus one samples, counting samples before the start as zero. The leaky integrator starts from zero, adds its gain (one, or the input value) where the input reaches the threshold and subtracts the decay elsewhere, and never goes below its lower bound. Neither output depends on future samples or on other series.",
     IC, "all input sequences up to the bound, all thresholds/rates listed",
     "Tests check a few hand-made sequences.",
     ["ml4gw/transforms/integrator.py"], [("convolution", "ml4gw/transforms/integrator.py:TophatIntegrator"), ("cumulative form of recursion", "ml4gw/transforms/integrator.py:LeakyIntegrator")])
prop("T10", "Spline interpolation is linear and reproduces polynomials and data",
     "Spline interpolation in one and two dimensions is linear in the data (a spline of the requested degrees with knots at running means of the interior coordinates, with optional regularization), acts per leading index, returns the data themselves when evaluated at the input coordinates without regularization, reproduces constants and polynomials up to the spline degree at every coordinate inside the domain, and holds the edge value outside it. Coordinates passed at call time take the place of those given at construction for that call only; missing or mismatched coordinates and data are rejected.",
     IC, "all data values; listed grids, degrees and output coordinates",
     "Tests compare a few smooth functions with scipy.",
     ["ml4gw/transforms/spline_interpolation.py"], [("basis", "ml4gw/transforms/spline_interpolation.py:SplineInterpolateBase.bspline_basis_natural"), ("solve", "ml4gw/transforms/spline_interpolation.py")])
prop("T11", "Multi-resolution spectrograms keep, per pixel, the strongest resolution",
     "The combined spectrogram equals, at every output frequency and time, the maximum over the configured resolutions of the spectrogram pixel covering it, each resolution being the plain normalized spectrogram of the input with its own settings. Output dimensions equal the largest frequency and time dimension among the resolutions, results for each batch element and channel are independent, and unnormalized resolutions, inconsistent settings and series of the wrong length are rejected.",
     IC, "all inputs; listed sets of resolutions",
     "Tests use one or two settings and compare a few pixels.",
     ["ml4gw/transforms/spectrogram.py"], [("pixel remap", "ml4gw/transforms/spectrogram.py:MultiResolutionSpectrogram")])
prop("T12", "Fitted transforms refuse to run unfitted and restore to the same behaviour",
     "A transform that needs fitting raises before it is fitted and, once fitted, produces the output determined by the fitted background only; fitting again replaces the earlier fit entirely. "
     "Saving its state and loading it into a fresh instance yields a transform that runs and gives identical outputs on every input.",
     ["inputs", "histories"], "all fitted values, all inputs; fit/refit/save/load sequences",
     "Tests restore one transform with one random fit.",
     ["ml4gw/transforms/transform.py", "ml4gw/transforms/whitening.py", "ml4gw/transforms/snr_rescaler.py", "ml4gw/transforms/scaler.py"], [("build/built flag", "ml4gw/transforms/transform.py:FittableTransform")])
prop("N01", "Streaming modules reproduce what one pass over the whole stream would give",
     "Feeding a stream in successive updates, the snapshotter emits exactly the windows at the configured stride over the concatenated stream (initial state included), with a state equal to the most recent samples still needed; the online averager emits, for every output time, the mean of the last configured number of overlapping updates covering it. "
     "How the stream is cut into updates and batches does not change the concatenated output.",
     ["inputs", "histories"], "all stream contents; listed sizes, batchings and offsets over several successive calls",
     "Tests run one or two update sizes with arange data.",
     ["ml4gw/nn/streaming/snapshotter.py", "ml4gw/nn/streaming/online_average.py"], [("state concat/unfold", "ml4gw/nn/streaming/snapshotter.py:Snapshotter.forward"), ("weighted overlap add", "ml4gw/nn/streaming/online_average.py:OnlineAverager.forward")])
prop("N02", "State-space layers are causal convolutions with their kernel",
     "A diagonal state-space layer's output is, before activation, the causal linear convolution of the input with the layer's kernel plus the skip term, where kernel tap l is twice the real part of the sum of C * (exp(dt*A) - 1)/A * exp(dt*A*l). The full layer applies the activation and a pointwise gated channel mixing to it, in either axis layout, without altering its input. Output at time t never depends on later inputs, and batch elements do not influence each other. Initial timesteps lie in [dt_min, dt_max] and initial states are -1/2 + i*pi*n, invalid dropout values are rejected, and the stacked model is encoder, post-normalized residual layers, mean over time and decoder.",
     IC, "all inputs and layer parameters; listed sizes",
     "Tests check shapes and overfitting.",
     ["ml4gw/nn/ssm/s4d.py"], [("kernel generation", "ml4gw/nn/ssm/s4d.py:S4DKernel.forward"), ("FFT convolution", "ml4gw/nn/ssm/s4d.py:S4D.forward")])
prop("N03", "Fast group normalization equals the reference definition",
     "One-dimensional group normalization returns, for every input, group count and affine parameters, each value minus its group mean over channels-in-group and time divided by the square root of the group's biased variance plus epsilon, scaled and shifted per channel. "
     "Invalid group counts are rejected.",
     IC, "all inputs and affine parameters; listed channel/group counts",
     "Tests compare random inputs with the library module.",
     ["ml4gw/nn/norm.py"], [("mean/scale reformulation", "ml4gw/nn/norm.py:GroupNorm1D.forward")])
prop("N04", "Networks treat batch elements independently and keep shape contracts",
     "In evaluation mode the residual networks and convolutional autoencoders map each batch element independently of the others, residual networks with the configured number of outputs, and an autoencoder's reconstruction has the shape of its input, including when lengths are not multiples of the total stride. Residual blocks add their (when necessary projected) input to their convolution path before the last rectification. Skip connections combine a decoder stage with the encoder state of the same depth, by addition or per-group concatenation.",
     IC, "all inputs and weights of small networks; listed architectures",
     "Tests check shapes only.",
     ["ml4gw/nn/resnet/resnet_1d.py", "ml4gw/nn/resnet/resnet_2d.py", "ml4gw/nn/autoencoder/base.py", "ml4gw/nn/autoencoder/convolutional.py", "ml4gw/nn/autoencoder/skip_connection.py"], [("encode/decode state order", "ml4gw/nn/autoencoder/base.py"), ("residual blocks", "ml4gw/nn/resnet/resnet_1d.py")])
prop("A01", "Inversion and reversal augment whole series with the stated probability",
     "Each augmented series is either unchanged or, when its own random draw falls below the configured probability, negated (inverter) or time reversed (reverser) as a whole, per batch element and channel. "
     "Probability zero never alters and probability one always alters the data, and no other value is changed.",
     I, "all inputs, all random draws, all probabilities",
     "Tests use probability 0, 1 or a fixed seed.",
     ["ml4gw/augmentations.py"], [("random mask", "ml4gw/augmentations.py:SignalInverter/SignalReverser")])
prop("W01", "Parameter conversions are consistent and norm preserving",
     "Converting chirp mass and mass ratio to component masses and back is the identity with the larger mass first, frame rotations preserve vector length, and converting from angle-based to Cartesian spins preserves both spin magnitudes and, in the orbital frame, their tilts while the returned inclination corresponds to the given viewing angle. "
     "Every element of a batch is converted from its own parameters.",
     I, "all angles, masses and spin magnitudes",
     "Tests compare random draws with another library.",
     ["ml4gw/waveforms/conversion.py"], [("rotations", "ml4gw/waveforms/conversion.py:rotate_*"), ("spin conversion", "ml4gw/waveforms/conversion.py:bilby_spins_to_lalsim")])
prop("W02", "Time-domain generation is the conditioned inverse transform of the approximant",
     "The time-domain generator returns, for each polarization and batch element, the inverse transform of exactly the approximant's spectrum after its conditioning, highpassed, with the requested number of samples and the coalescence right_pad seconds (to the nearest sample) before the end: zero below that element's start frequency and at the Nyquist frequency, a cosine taper up to its lower frequency, nothing else altered; then cosine tapers over the first cycle of the lower frequency and the last cycle of each element's innermost orbit, and zeros on the left (or cropping from the left) to fill the duration. The approximant is asked once for the grid frequencies from the lowest start frequency, with the caller's parameters and reference frequency. The grid follows from the literature bounds on chirp, merger and ringdown times, start frequency, final spin and innermost orbit for all masses and spins.",
     IC, "all approximant spectra; listed durations, rates, paddings",
     "Tests compare a few masses with lalsimulation.",
     ["ml4gw/waveforms/generator.py", "ml4gw/waveforms/cbc/utils.py"], [("conditioning", "ml4gw/waveforms/generator.py:TimeDomainCBCWaveformGenerator")])
prop("W03", "TaylorF2 is the post-Newtonian series with its scalings and symmetries",
     "TaylorF2's phase is the 3.5 post-Newtonian stationary-phase series with its aligned-spin terms, measured from its value at the reference frequency, and the returned frequency derivative is that series' derivative. Both polarizations have amplitude proportional to chirp mass to the five sixths and frequency to the minus seven sixths, fall inversely with distance, carry the inclination factors (1+cos^2)/2 and cos with a quarter-cycle offset, and turn by twice the coalescence phase. Exchanging the two bodies changes nothing, each batch element depends only on its own parameters, inputs stay as they were, and parameter batches of differing size are refused.",
     I, "all masses, spins, distances, phases and inclinations in range; listed frequency grids",
     "Tests compare random draws with lalsimulation within loose tolerance.",
     ["ml4gw/waveforms/cbc/taylorf2.py"], [("amplitude/phase series", "ml4gw/waveforms/cbc/taylorf2.py:TaylorF2")])
prop("W04", "PhenomD is smooth across its regions and obeys exact scalings",
     "The PhenomD amplitude and phase are continuous with continuous first derivative where their inspiral, intermediate and merger-ringdown descriptions meet, the merger-ringdown amplitude joins at its maximum, and the analytic derivatives returned are the derivatives of the functions returned. The coefficients, remnant spin, radiated energy and tabulated ringdown frequencies are the published functions of mass ratio and spins (a remnant spin outside the table is an error). A waveform is the Newtonian amplitude over the distance times the amplitude function, with the phase function referenced to f_ref and shifted by twice the coalescence phase; its polarizations carry the standard inclination factors (1+cos^2)/2 and -i cos, batch elements are independent of each other, inputs are not modified and batches of different sizes are rejected.",
     I, "all masses and spins in range; frequencies symbolic around the junctions",
     "Tests compare a handful of random draws with lalsimulation.",
     ["ml4gw/waveforms/cbc/phenom_d.py"], [("junction matching", "ml4gw/waveforms/cbc/phenom_d.py:IMRPhenomD")])
prop("W05", "PhenomPv2 twisting preserves norms and reduces to the aligned-spin case",
     "The spin-weighted harmonics and rotation coefficients used by PhenomPv2 are the exact spin-2 functions: the harmonics' squares sum to 5/(4 pi) for every viewing angle, the rotation coefficients are the cosine and sine of half the angle between orbital and total angular momentum. The polarizations are the mode-by-mode rotation of the aligned-spin waveform, linear in it, turned by twice the angle between PhenomP's and the source's polarization frames; viewing, precession and polarization angles are those of the geometry of spins, orbit and line of sight for every reference phase and inclination. For aligned spins the result has PhenomD's modulus with the inclination factors (1+cos^2)/2 and cos and twice the coalescence phase. Amplitude scales inversely with distance, tc is a time shift in seconds, batch elements are independent, inputs are not modified, table interpolation is exact on the whole grid and nearly equal masses give finite waveforms.",
     I, "all opening angles, viewing angles, spins and masses in range",
     "Tests compare random draws with lalsimulation at loose tolerance.",
     ["ml4gw/waveforms/cbc/phenom_p.py"], [("Wigner coefficients", "ml4gw/waveforms/cbc/phenom_p.py:IMRPhenomPv2.WignerdCoefficients"), ("twist up", "ml4gw/waveforms/cbc/phenom_p.py:IMRPhenomPv2.PhenomPCoreTwistUp")])
prop("W06", "Ad-hoc burst waveforms have the requested energy, phase and ellipticity",
     "Sine-Gaussian polarizations are a Gaussian-enveloped cosine and sine about the middle of the window at the requested frequency and phase, whose amplitudes encode the requested root-sum-square strain and eccentricity. Ringdown polarizations are damped sinusoids starting at zero time with the requested frequency, quality and phase, inclination factors 1+cos^2 and 2 cos, inverse distance scaling, and the amplitude with which a hole of that frequency and quality radiates the requested fraction of its mass. Each batch element depends only on its own parameters, the parameters stay as they were, and series have the length and type asked for.",
     I, "all amplitude, phase, frequency, quality and eccentricity values in range; listed time grids",
     "Tests compare a handful of parameter values with another implementation.",
     ["ml4gw/waveforms/adhoc/sine_gaussian.py", "ml4gw/waveforms/adhoc/ringdown.py"], [("closed forms", "ml4gw/waveforms/adhoc/sine_gaussian.py:SineGaussian.forward")])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
