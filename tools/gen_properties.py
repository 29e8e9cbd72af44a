#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


LFS = ("The repository's reader tests need Git-LFS recordings (absent here) and compare one "
       "stored dataset per recording; ")

# ---------------------------------------------------------------- readers
p("C01", "RDI/TRDI PD0 files decode to the values the instrument recorded",
  "For every well-formed Teledyne RDI PD0 recording, reading it yields, for every complete ensemble in file order, "
  "exactly the recorded time stamps, ensemble numbers, attitude, velocity, correlation, amplitude and percent-good "
  "samples (and bottom-track samples when present) in the documented physical units, with the instrument's "
  "'bad velocity' marker read as NaN. Ranges, beam geometry, coordinate system and configuration attributes equal what the "
  "fixed leader says. An ensemble with an invalid clock costs only its own time stamp (NaT with a warning), never the file.",
  ["inputs", "configurations"],
  "all valid PD0 byte streams: any cell count, 4-beam workhorse-style frequency codes, up/down orientation, coordinate system, "
  "negative/large angles, any order of the data types after the two leaders (unknown types are skipped), with or without bottom track and navigation blocks, ensemble counters beyond 65535, any dates incl. leap "
  "days, cell counts that vary along the file; the reader may leave out the very last ensemble.",
  LFS + "none varies the configuration or the numeric extremes.",
  ["dolfyn/io/rdi.py", "dolfyn/io/rdi_lib.py", "dolfyn/io/rdi_defs.py", "dolfyn/io/base.py"],
  [("_RDIReader", "dolfyn/io/rdi.py"), ("bin_reader", "dolfyn/io/rdi_lib.py"), ("_get_beam_coords/_create_dataset", "dolfyn/io/base.py")],
  ["dolfyn.read", "dolfyn.io.api.read_rdi"])

p("C02", "RDI reader resynchronises after garbage and never invents samples",
  "When junk bytes are inserted between ensembles, or the recording is truncated, reading still terminates and every ensemble it reports has "
  "exactly the values of one ensemble that is in the file, in file order and without duplicates. An ensemble that "
  "is intact and directly followed by another header is not lost.",
  ["fault_sequences", "inputs"],
  "junk runs of any length up to several kB at ensemble boundaries, bytes lost from or inserted into ensembles, truncation at any byte, multiple faults per file; junk that is itself laid out like a complete ensemble is out of scope (the reader does not verify checksums).",
  LFS + "no test damages a file.",
  ["dolfyn/io/rdi.py"],
  [("read_hdr/check_configuration/search_buffer/checkheader", "dolfyn/io/rdi.py")],
  ["dolfyn.read"])

p("C03", "Nortek Vector files (with or without IMU) decode to the recorded values",
  "For every well-formed Nortek Vector recording, reading it yields, for every sample in file order (at most the final one left out), "
  "the recorded velocity, amplitude, correlation and pressure, the orientation sensor values interpolated onto the sample times from the 1 Hz "
  "system records, and, if present, the IMU acceleration, angular rate, magnetic field and orientation matrix, all in the documented units. Sample times are "
  "consistent with the recorded system clock and the sampling rate, and configuration attributes equal the recorded headers.",
  ["inputs", "configurations"],
  "all valid Vector byte streams: sampling rates 1-64 Hz, all coordinate systems, both velocity scalings, negative values, low/high pressure words, "
  "with/without Microstrain IMU, continuous and multi-second recordings.",
  LFS + "no test varies rate, scaling, or sign.",
  ["dolfyn/io/nortek.py", "dolfyn/io/nortek_defs.py"],
  [("_NortekReader.read_vec_*", "dolfyn/io/nortek.py"), ("sci_vec_data/sci_vec_sysdata/sci_microstrain", "dolfyn/io/nortek.py")],
  ["dolfyn.read", "dolfyn.io.api.read_nortek"])

p("C04", "Nortek AWAC profile files decode to the recorded values",
  "For every well-formed AWAC current-profile recording, reading it yields for every ensemble in file order (at most the final one left out) the recorded "
  "time, velocity profile, amplitude, pressure, temperature, heading, pitch, roll, battery and sound speed in the documented units with their sign, and the range "
  "coordinate follows from the recorded blanking distance and cell size.",
  ["inputs", "configurations"],
  "all valid AWAC current-profile byte streams with any number of cells, any coordinate system, negative velocities, angles and temperatures, low/high "
  "pressure words, odd and even cell counts (fill byte).",
  LFS + "one AWAC recording only.",
  ["dolfyn/io/nortek.py", "dolfyn/io/nortek_defs.py"],
  [("read_awac_profile/sci_awac_profile", "dolfyn/io/nortek.py")],
  ["dolfyn.read", "dolfyn.io.api.read_nortek"])

p("C05", "Nortek checksum verification accepts intact and rejects damaged records",
  "With checksum verification enabled, the Nortek reader accepts every recording whose record checksums are right and returns the same data as without verification, "
  "and raises an error for a recording in which the bytes of a checked record do not match its checksum.",
  ["inputs", "fault_sequences"],
  "any record content (so any 16-bit sum, overflowing or not), any single corrupted byte in a checked record.",
  "No test enables verification.",
  ["dolfyn/io/nortek.py"],
  [("checksum", "dolfyn/io/nortek.py")],
  ["dolfyn.io.api.read_nortek(do_checksum=True)"])

p("C06", "Nortek Signature .ad2cp files decode to the recorded values",
  "For every well-formed Signature recording, reading it yields for every ensemble, stream by stream (burst, average, bottom-track, fifth beam, altimeter, echosounder), the recorded times, "
  "velocity, amplitude, correlation, pressure, temperatures, attitude, IMU and orientation data in the documented units, on range "
  "coordinates that follow from the recorded cell size and blanking distance. A recording that alternates averages and bursts gives two datasets, each with exactly its own streams. Different streams never mix and records that carry a different number of beams or cells "
  "never shift another field.",
  ["inputs", "configurations"],
  "all valid AD2CP version-3 byte streams over the set of optional fields (velocity, amplitude, correlation, altimeter, AST, AHRS, std), cell counts, 4/5 "
  "beams, scale exponents, coordinate systems, interleaved streams.",
  LFS + "only a few stored configurations.",
  ["dolfyn/io/nortek2.py", "dolfyn/io/nortek2_lib.py", "dolfyn/io/nortek2_defs.py"],
  [("_Ad2cpReader", "dolfyn/io/nortek2.py"), ("_calc_burst_struct", "dolfyn/io/nortek2_defs.py"), ("_collapse/_reorg/_reduce", "dolfyn/io/nortek2_lib.py")],
  ["dolfyn.read", "dolfyn.io.api.read_signature"])

p("C07", "Partial reads of a recording equal the same slice of the full read",
  "Reading only the first N ensembles (or an [N, M) window, where the reader supports it) of any recording gives, for every time-dependent variable, exactly the corresponding leading "
  "ensembles (or window) of what reading the whole file gives (a Vector's fitted sample times and its once-per-second sensors, which are derived from the records that were read, agree with the recorded ones to their accuracy). Reading twice, with a cached or freshly "
  "rebuilt index, gives the same dataset, an indexing that fails half-way (disk full, interruption) does not affect later reads, and cropping a Signature file on disk reproduces that window.",
  ["inputs", "histories"],
  "any window start/stop within the file, all instrument families, index cached from an earlier read or rebuilt.",
  LFS + "one hard-coded window per file.",
  ["dolfyn/io/rdi.py", "dolfyn/io/nortek.py", "dolfyn/io/nortek2.py", "dolfyn/io/nortek2_lib.py"],
  [("nens handling", "dolfyn/io/*.py"), ("get_index/crop_ensembles", "dolfyn/io/nortek2_lib.py")],
  ["dolfyn.read(nens=...)", "dolfyn.io.nortek2_lib.get_index", "dolfyn.io.nortek2_lib.crop_ensembles"])

p("C08", "File-type detection and user-metadata handling on read",
  "The reader picks the instrument family from the file's leading bytes whatever the name or extension, refuses unrecognised files with an error, and applies the user metadata "
  "found beside the recording, or given explicitly as a file name: every key ends up as a dataset attribute, and a declination or inst2head rotation given there "
  "is applied to the data exactly as if the user had set it afterwards. With userdata=False nothing is applied.",
  ["inputs", "configurations"],
  "all supported families, arbitrary file names, userdata given as True/False/path, arbitrary metadata keys, valid rotation matrices and declinations.",
  "The tests exercise one stored JSON file.",
  ["dolfyn/io/api.py", "dolfyn/io/base.py"],
  [("_get_filetype/read", "dolfyn/io/api.py"), ("_find_userdata/_read_userdata", "dolfyn/io/base.py")],
  ["dolfyn.read"])

p("C09", "Reading leaves the recording untouched and is repeatable",
  "Reading any recording (intact or damaged) never modifies, renames or deletes the source file or any other existing file, creates nothing but the documented Signature index "
  "and optional debug log, leaves no open file handle behind (nor one to the garbage collector), and reading the same unchanged file again gives an identical dataset. When the source bytes cannot be decoded the reader raises an ordinary exception "
  "within bounded time.",
  ["inputs", "fault_sequences"],
  "intact, truncated, bit-flipped and random files of every family.",
  "No test watches the file system or feeds damaged input.",
  ["dolfyn/io/api.py", "dolfyn/io/base.py", "dolfyn/io/rdi.py", "dolfyn/io/nortek.py", "dolfyn/io/nortek2.py"],
  [("open/seek/close in the three readers", "dolfyn/io/")],
  ["dolfyn.read"])

# ---------------------------------------------------------------- storage
p("C10", "netCDF save/load round trip preserves a dataset",
  "Saving a dataset to netCDF and loading it back gives the same variables, dimensions, coordinates, times and attributes: every array equal (float64 up to single precision, compressed or not), NaNs in place, complex "
  "variables complex, boolean variables boolean, rotate_vars a list; an encoding the caller gives takes precedence over the compression default. Saving never changes the dataset the caller holds, and loading a saved file then rotating or analysing it gives the same "
  "result as with the original.",
  ["inputs", "configurations"],
  "any dataset produced by the readers or the analysis tools, incl. complex, boolean, string, integer and datetime content, NaN runs, empty attributes; compression on/off.",
  "Tests round-trip a couple of stored datasets and never look at the caller's dataset afterwards.",
  ["dolfyn/io/api.py", "dolfyn/io/base.py"],
  [("save/load", "dolfyn/io/api.py")],
  ["dolfyn.save", "dolfyn.load"])

p("C11", "MATLAB save/load round trip preserves a dataset",
  "Saving a dataset as a .mat file and loading it back gives the same variables, dimensions, coordinate values and attributes, with times equal to within the precision of the documented MATLAB "
  "date-number conversion and numeric data unchanged. The dataset the caller holds is not changed by saving.",
  ["inputs", "configurations"],
  "any reader- or analysis-shaped dataset, datenum on/off, any number of time coordinates.",
  "Tests round-trip one stored dataset.",
  ["dolfyn/io/api.py", "dolfyn/time.py"],
  [("save_mat/load_mat", "dolfyn/io/api.py")],
  ["dolfyn.save_mat", "dolfyn.load_mat"])

# ---------------------------------------------------------------- time
p("C12", "Time conversions are mutually inverse and agree with the calendar",
  "The conversions between numpy datetime64, epoch seconds, Python datetimes, MATLAB datenums and date strings agree with the proleptic Gregorian calendar in UTC and are inverse to each other to within the "
  "resolution of the representation, elementwise, preserving order and shape. Gaps in a time vector are filled on the "
  "regular grid without moving valid stamps.",
  ["inputs"],
  "any instant from 1901 to 2200 incl. leap days, year ends, sub-second and pre-1970 instants, scalars and arrays.",
  "Tests convert the stamps of two recordings.",
  ["dolfyn/time.py"],
  [("epoch2dt64/dt642epoch/date2dt64/dt642date/date2matlab/matlab2date/date2epoch/date2str/epoch2date/_fullyear/_fill_time_gaps", "dolfyn/time.py")],
  ["dolfyn.time.*"])

# ---------------------------------------------------------------- rotations
p("C13", "Orientation matrices, Euler angles and quaternions are consistent",
  "Every orientation matrix the library builds from Euler angles or quaternions is a proper rotation (orthonormal, determinant +1) and follows the documented instrument-specific heading/pitch/roll convention; converting an "
  "orientation matrix to angles and back, or angles to a matrix and back, returns the starting value. Tilt is the documented combination of the pitch and roll slopes, "
  "non-negative and zero only for a level instrument.",
  ["inputs", "configurations"],
  "all headings 0-360, pitch within +-90, roll within +-180 degrees, all instrument families, up and down orientation, unit quaternions of any sign.",
  "test_orient checks a dozen angle triples.",
  ["dolfyn/rotate/base.py", "dolfyn/rotate/vector.py", "dolfyn/rotate/rdi.py"],
  [("euler2orient/orient2euler/quaternion2orient/calc_tilt", "dolfyn/rotate/base.py"), ("_calc_omat/_euler2orient", "dolfyn/rotate/vector.py"), ("_calc_orientmat", "dolfyn/rotate/rdi.py")],
  ["dolfyn.euler2orient", "dolfyn.orient2euler", "dolfyn.rotate.base.quaternion2orient", "dolfyn.rotate.base.calc_tilt"])

p("C14", "rotate2 is invertible, path independent and touches only rotatable data",
  "Rotating a dataset between any of its coordinate systems and back returns the starting data to rounding error, going through intermediate systems gives the same result as going directly, "
  "and coord_sys always names the frame the data are in. Vector magnitudes are preserved by every rotation between orthogonal frames, variables that are not rotatable are left exactly alone, and with inplace=False the caller's dataset is untouched.",
  ["inputs", "histories", "configurations"],
  "any sequence of rotations over beam/inst/earth/principal (and ship), all instrument families, NaNs in the data, several rotatable variables, time-varying orientation, single-sample records.",
  "Tests compare one stored dataset per pair of frames.",
  ["dolfyn/rotate/api.py", "dolfyn/rotate/base.py", "dolfyn/rotate/vector.py", "dolfyn/rotate/awac.py", "dolfyn/rotate/signature.py", "dolfyn/rotate/rdi.py"],
  [("rotate2", "dolfyn/rotate/api.py"), ("_beam2inst/_inst2earth/_earth2principal", "dolfyn/rotate/")],
  ["dolfyn.rotate2"])

p("C15", "Rotations apply the documented transform of each frame",
  "Beam-to-instrument rotation multiplies by the recorded transformation matrix, instrument-to-earth applies the sample's own orientation, and earth-to-principal turns the horizontal plane so that the streamwise axis points along "
  "principal_heading, leaving the vertical component alone; NaN samples stay confined to the sample they are in. The result for each instrument family equals an independent evaluation of "
  "those transforms.",
  ["inputs", "configurations"],
  "arbitrary velocity and orientation time series, transformation matrices, up and down orientation, 3- and 4-component instruments, IMU variables on their own axes.",
  "Tests compare one stored dataset per pair of frames.",
  ["dolfyn/rotate/vector.py", "dolfyn/rotate/signature.py", "dolfyn/rotate/rdi.py", "dolfyn/rotate/base.py"],
  [("_inst2earth", "dolfyn/rotate/vector.py"), ("_inst2earth", "dolfyn/rotate/signature.py"), ("_inst2earth", "dolfyn/rotate/rdi.py"), ("_earth2principal", "dolfyn/rotate/vector.py")],
  ["dolfyn.rotate2"])

p("C16", "Setting declination is exact, order independent and never applied twice",
  "Setting a magnetic declination turns earth-frame data clockwise by that angle, raises heading and principal heading by it, records it, and leaves instrument-frame data alone; setting it before or after rotating gives the same data. Setting the same "
  "value again changes nothing and setting a new value gives what setting only the new value would have given.",
  ["inputs", "histories"],
  "any sequence of declinations and rotations, all families, in earth, inst, beam or principal frame, in place or not.",
  "Tests set one declination on two datasets.",
  ["dolfyn/rotate/api.py"],
  [("set_declination", "dolfyn/rotate/api.py")],
  ["dolfyn.set_declination"])

p("C17", "inst2head rotation is applied once, only where valid, and is invertible",
  "Setting the head-orientation matrix of a Vector expresses its velocity in the new frame exactly once and keeps earth-frame results consistent with head-frame data; a matrix that is not 3x3, whose determinant "
  "is not +1, or set a second time, or on an unsupported instrument, is refused with an error and leaves the dataset unchanged.",
  ["inputs", "histories"],
  "random rotation matrices, any starting coordinate system, repeated calls, invalid matrices.",
  "Tests apply one matrix.",
  ["dolfyn/rotate/api.py", "dolfyn/rotate/vector.py"],
  [("set_inst2head_rotmat", "dolfyn/rotate/api.py"), ("_rotate_inst2head", "dolfyn/rotate/vector.py")],
  ["dolfyn.set_inst2head_rotmat"])

p("C18", "Principal heading is the flow axis and turns with the flow",
  "The principal heading of a velocity record is the compass direction of its mean flow, or in tidal mode of the axis given by the speed-weighted mean of the doubled directions; rotating the flow by an angle turns the result by that angle "
  "(modulo 180 in tidal mode, 360 otherwise), and scaling, NaN samples or sample order do not matter. Converting between compass "
  "degrees and counter-clockwise-from-east degrees is an involution.",
  ["inputs"],
  "random tidal ellipses at any angle and aspect ratio, unidirectional flows, records with NaNs and profiles.",
  "Tests compare one number.",
  ["dolfyn/rotate/base.py", "dolfyn/rotate/api.py", "dolfyn/tools/misc.py"],
  [("calc_principal_heading", "dolfyn/rotate/api.py"), ("convert_degrees", "dolfyn/tools/misc.py")],
  ["dolfyn.calc_principal_heading", "dolfyn.tools.misc.convert_degrees"])

# ---------------------------------------------------------------- binning/spectra
p("C19", "Binning and ensemble averaging: every sample in exactly one bin",
  "Bin averaging splits the time axis into consecutive bins of n_bin samples, puts every sample of a complete bin in exactly that bin, and gives per bin the NaN-ignoring mean or variance of its samples, with bin times and other dimensions preserved; "
  "an incomplete last bin is dropped. Averaging a dataset equals averaging each of its variables, and detrending or "
  "demeaning removes exactly the best-fit line or mean of each bin.",
  ["inputs", "configurations"],
  "any record length, bin length (incl. ones not dividing it), sampling rate, dimensionality, NaN pattern, per-call overrides of n_bin.",
  "Tests average one stored record.",
  ["dolfyn/binned.py", "dolfyn/velocity.py"],
  [("TimeBinner.reshape/mean/var/std/detrend/demean", "dolfyn/binned.py"), ("VelBinner.bin_average/bin_variance", "dolfyn/velocity.py")],
  ["VelBinner.bin_average", "VelBinner.bin_variance", "VelBinner.reshape", "VelBinner.detrend"])

p("C20", "Power spectra obey Parseval's relation and the units they claim",
  "A power spectral density integrates over its frequency axis to the variance of the signal, is non-negative, peaks at the frequency of a sinusoid, scales with amplitude squared and does not depend on the mean or sign of the record; expressed in Hz or rad/s it describes the same variance. Every bin of a "
  "dataset gets the spectrum of that bin's own samples (plus the documented overlap with its neighbours when n_bin exceeds n_fft), with overrides honoured and instrument noise removed as documented.",
  ["inputs", "configurations"],
  "any signal, record/FFT length combination, window, step, sampling rate, freq_units, noise level.",
  "Tests compare stored spectra.",
  ["dolfyn/tools/psd.py", "dolfyn/binned.py", "dolfyn/velocity.py"],
  [("psd/cpsd_quasisync/stepsize/psd_freq", "dolfyn/tools/psd.py"), ("calc_psd", "dolfyn/velocity.py"), ("calc_psd_base", "dolfyn/binned.py")],
  ["dolfyn.tools.psd.psd", "VelBinner.calc_psd"])

p("C21", "Cross-spectra, coherence and phase describe the pair of signals",
  "The cross-spectral density of a signal with itself is its power spectrum and swapping the inputs conjugates it; coherence lies in [0, 1], is 1 for linearly related signals and insensitive to gain; the phase angle of a delayed copy is the delay times angular frequency in magnitude, with opposite "
  "sign when the signals are swapped. Binned versions give each bin the estimate from its own samples on the frequency axis they report.",
  ["inputs", "configurations"],
  "any pair of signals, equal or quasi-synchronous lengths, FFT lengths, windows, per-call overrides.",
  "Tests compare stored arrays.",
  ["dolfyn/tools/psd.py", "dolfyn/binned.py", "dolfyn/velocity.py"],
  [("cpsd/cpsd_quasisync/coherence/phase_angle", "dolfyn/tools/psd.py"), ("calc_csd/calc_coh/calc_phase_angle", "dolfyn/velocity.py, dolfyn/binned.py")],
  ["dolfyn.tools.psd.*", "VelBinner.calc_csd", "VelBinner.calc_coh", "VelBinner.calc_phase_angle"])

p("C22", "Auto- and cross-covariance equal their definition at every lag",
  "For every bin the auto-covariance at each reported lag is the (unnormalised) sum of lagged products of the demeaned bin with the demeaned record around it, so its zero-lag value is n_bin times the bin's variance; the cross-covariance "
  "is the same for a pair of signals and a constant offset or the other bins' values never matter. The lag axis reported matches the lags computed, and the integral length scale is mean speed over sampling rate times the first lag at which the normalised auto-covariance has fallen to 1/e.",
  ["inputs", "configurations"],
  "any signals, bin lengths, FFT-length overrides, multi-dimensional input.",
  "Tests compare stored arrays.",
  ["dolfyn/velocity.py"],
  [("calc_acov/calc_xcov", "dolfyn/velocity.py")],
  ["VelBinner.calc_acov", "VelBinner.calc_xcov"])

p("C23", "Turbulent kinetic energy and Reynolds stresses are the bin (co)variances",
  "For every bin the TKE vector is the variance of each detrended (or demeaned) velocity component less the squared instrument noise, never affected by other bins; the stress vector is the three component covariances "
  "in the documented order; turbulence intensity is the standard deviation of speed over mean speed as a fraction, masked below the given speed threshold. Turning the whole bundle into a dataset with the ADV turbulence shortcut gives the same numbers.",
  ["inputs", "configurations"],
  "any 3-component velocity record, noise values, NaNs, detrend on/off.",
  "Tests compare stored arrays.",
  ["dolfyn/velocity.py", "dolfyn/adv/turbulence.py"],
  [("calc_tke/calc_stress/calc_ti", "dolfyn/velocity.py, dolfyn/adv/turbulence.py")],
  ["VelBinner.calc_tke", "ADVBinner.calc_stress", "VelBinner.calc_ti", "dolfyn.adv.api.calc_turbulence"])

p("C24", "Dissipation estimators recover the rate of an exact inertial-range input",
  "Fed a spectrum or series that follows the inertial subrange law for a known dissipation rate, each dissipation estimator returns that rate to within its statistical accuracy, whatever the units of the frequency axis, the mean speed, the frequency window or the bin, and scales with the 3/2 power of spectral "
  "energy. Each bin is estimated from its own data only.",
  ["inputs", "configurations"],
  "dissipation rates over several decades, mean speeds, frequency ranges, Hz and rad/s, noise subtraction, ADV and ADCP estimators (LT83, structure function, TE01).",
  "Tests compare stored arrays.",
  ["dolfyn/adv/turbulence.py", "dolfyn/adp/turbulence.py"],
  [("calc_epsilon_LT83/SF/TE01", "dolfyn/adv/turbulence.py"), ("calc_dissipation_LT83/SF", "dolfyn/adp/turbulence.py"), ("check_turbulence_cascade_slope", "dolfyn/adv/turbulence.py")],
  ["ADVBinner.calc_epsilon_*", "ADPBinner.calc_dissipation_*"])

p("C25", "ADCP shear, beam stresses and friction velocity follow their definitions",
  "The vertical shear of a profile linear in range is its slope at every interior cell (squared shear the sum of squares), whatever the difference scheme; beam-variance Reynolds stresses follow the published 4- and 5-beam equations, returning the prescribed covariance for a level instrument with correct beam angle and sign. The Doppler "
  "noise is the documented estimate from the high-frequency part of the spectrum (the standard deviation, for white noise), and friction velocity recovers the intercept of a linear stress profile.",
  ["inputs", "configurations"],
  "random linear profiles, orientations, cell sizes, beam angles 20/25/30, covariances, tilts, 4- and 5-beam instruments.",
  "Tests compare stored arrays.",
  ["dolfyn/adp/turbulence.py"],
  [("calc_dudz/calc_dvdz/calc_dwdz/calc_shear2", "dolfyn/adp/turbulence.py"), ("calc_stress_4beam/calc_stress_5beam/calc_ustar_fit/calc_doppler_noise", "dolfyn/adp/turbulence.py")],
  ["ADPBinner.*"])

# ---------------------------------------------------------------- motion/cleaning
p("C26", "Motion correction removes exactly the induced platform velocity",
  "Motion-correcting an ADV record adds to the raw velocity the rotational velocity (angular rate cross lever arm) and the band-limited time integral of the measured acceleration, rotated into the frame of the data, and reports both; a body at rest is not altered, "
  "a steadily spinning one is corrected by exactly omega cross r. The original is kept as vel_raw, and correcting twice is refused or a no-op, never doubled.",
  ["inputs", "configurations"],
  "synthetic platform motions of any orientation, angular rate, acceleration and lever arm, filter frequencies, sampling rates, coordinate systems.",
  "Tests compare stored arrays.",
  ["dolfyn/adv/motion.py"],
  [("CalcMotion/correct_motion", "dolfyn/adv/motion.py")],
  ["dolfyn.adv.api.correct_motion"])

p("C27", "ADV despiking flags outliers and replaces only what it flags",
  "The ADV cleaning masks flag exactly the samples that meet their documented criterion (range limit, spike threshold, phase-space ellipsoid), filling interpolates or averages only "
  "across flagged samples and leaves every other sample bit-for-bit alone, and isolated large spikes in an otherwise quiet record are found wherever they are. The input dataset is not altered unless in-place filling is documented.",
  ["inputs"],
  "any record, spike position incl. first and last samples, any threshold, NaNs, several components, all filling methods.",
  "Tests compare one stored result per method.",
  ["dolfyn/adv/clean.py", "dolfyn/tools/misc.py"],
  [("GN2002/spike_thresh/range_limit/clean_fill/fill_nan_ensemble_mean", "dolfyn/adv/clean.py")],
  ["dolfyn.adv.clean.*"])

p("C28", "ADCP cleaning removes exactly the data its criterion names",
  "ADCP quality control blanks exactly the cells beyond the surface or with correlation below threshold and nothing else, the surface range found from the echo peak or from pressure is the documented one for every ping, range offsets for deployment height shift every range "
  "coordinate once, and gap filling along time or depth interpolates only blanked cells within the given maximum gap.",
  ["inputs", "configurations"],
  "any profile, threshold, surface position per ping, any number of pings and cells, orientation up/down, extra beams.",
  "Tests compare one stored result per method.",
  ["dolfyn/adp/clean.py"],
  [("set_range_offset/find_surface/find_surface_from_P/nan_beyond_surface/correlation_filter/medfilt_orient/val_exceeds_thresh/fillgaps_time/fillgaps_depth", "dolfyn/adp/clean.py")],
  ["dolfyn.adp.clean.*"])

p("C29", "Gap filling, detrending, grouping and median filtering meet their contract",
  "The array tools act along the requested axis as if on each 1-D slice independently: gap filling keeps valid samples, interpolates linearly inside gaps up to maxgap, and never fills beyond it; detrending removes the least-squares line; grouping returns exactly the "
  "runs of True at least min_length long in order; NaN-aware median filtering ignores NaNs unless their fraction of the window exceeds the threshold. Apart from gap filling, which works in place, the inputs are not modified.",
  ["inputs"],
  "arrays of any shape, axis, NaN pattern (incl. leading, trailing, all-NaN), gap limit, kernel length.",
  "test_tools samples a handful of arrays.",
  ["dolfyn/tools/misc.py"],
  [("detrend/group/slice1d_along_axis/fillgaps/interpgaps/medfiltnan", "dolfyn/tools/misc.py")],
  ["dolfyn.tools.misc.*"])

p("C30", "Derived velocity quantities follow from the stored data",
  "The derived quantities offered on a dataset (u, v, w, complex horizontal velocity, speed, direction, turbulence and stress components, I_tke, coherence-like properties) are the stated functions of the stored variables at every sample: speed is the magnitude of u+iv, direction is compass degrees towards which water moves in earth frame and "
  "clockwise from the x axis otherwise, and tke is half the sum of the component variances. Reading them never changes the dataset and they follow the current coordinate system.",
  ["inputs", "configurations"],
  "any dataset, coordinate system, NaNs, 3/4 components, averaged or not.",
  "Tests compare a few stored arrays.",
  ["dolfyn/velocity.py"],
  [("Velocity properties", "dolfyn/velocity.py")],
  ["ds.velds.*"])

p("C31", "Analysis never changes its input dataset and does not depend on call history",
  "Spectral, averaging, turbulence, cleaning-mask, rotation (inplace=False) and shortcut functions (all but those that work in place by design: the beam-stress functions, the in-place cleaning tools and rotations) leave the caller's arrays, attributes and coordinates bit-for-bit unchanged, and calling them again, in any order or with a reused binner object, gives the same results.",
  ["histories", "inputs"],
  "random sequences of analysis calls sharing one dataset and one binner object.",
  "Tests call each function once on a fresh dataset.",
  ["dolfyn/binned.py", "dolfyn/velocity.py", "dolfyn/adv/turbulence.py", "dolfyn/adp/turbulence.py", "dolfyn/tools/psd.py"],
  [("TimeBinner state (n_bin, fs, n_fft)", "dolfyn/binned.py")],
  ["VelBinner/ADVBinner/ADPBinner"])

p("C32", "Nortek Vectrino files decode to the recorded values",
  "For every well-formed Vectrino recording, reading it yields, for every sample in file order (at most the final one left out), the recorded four-component velocity, amplitudes, correlations and status in the documented units, at the time of the recorded start event plus the sample's index over the sampling rate; configuration attributes equal the recorded headers. Header or unknown records in between change nothing, and a partial read is the corresponding window.",
  ["inputs"],
  "all Vectrino recordings: sampling rates, sample contents, records in between, lengths, windows.",
  "One recording is stored (and needs git-LFS).",
  ["dolfyn/io/nortek.py", "dolfyn/io/nortek_defs.py"],
  [("Vectrino data record 0x51", "dolfyn/io/nortek.py"), ("start event 0x0f", "dolfyn/io/nortek.py")],
  ["dolfyn.read"])

p("C33", "Data and results carry the units their numbers are in",
  "Every physical variable read from a recording carries the unit its numbers are in and its standard name, whichever instrument, stream or navigation block it comes from, and the label of one stream (e.g. bottom track) never ends up on another. Derived quantities (speeds, spectra, stresses, dissipation, shear, noise, length scales, motion velocities) carry units of their dimension, spectra in the frequency unit that was asked for, and rotation, averaging, cleaning and motion correction keep the units and names of the variables they return.",
  ["inputs"],
  "all recordings of all instrument families (any combination of streams) and all datasets, frequency units.",
  "Stored outputs contain the attributes of a few recordings; comparisons of values do not see labels.",
  ["dolfyn/io/base.py", "dolfyn/io/nortek2.py", "dolfyn/io/nortek_defs.py", "dolfyn/io/rdi_defs.py", "dolfyn/velocity.py"],
  [("Attributes of data variables", "dolfyn/io/base.py"), ("Attributes of derived quantities", "dolfyn/velocity.py")],
  ["dolfyn.read", "ds.velds.*", "VelBinner/ADVBinner/ADPBinner"])

p("C34", "The velds view and its printed summary describe the dataset they stand on",
  "Working through ds.velds is the same as working on ds: its rotate2, set_declination, set_inst2head_rotmat and save do to the dataset exactly what the functions of the same name do (result, in-place or copy, refusals), its item, attribute, coordinate and variable views are those of the dataset. Its printed summary can be made of any dataset and is true: instrument, current coordinate frame, start, time span in the unit named, number of samples and rate, dimensions of the variables listed.",
  ["inputs", "histories"],
  "all datasets (any instrument, frame, number of samples including one or none, time span, raw/averaged/sliced) after any history of rotations and settings.",
  "Tests call repr without looking at it, on one dataset.",
  ["dolfyn/velocity.py"],
  [("Velocity accessor", "dolfyn/velocity.py")],
  ["ds.velds", "repr(ds.velds)"])

p("C35", "What a reader returns goes through every later step, in any order",
  "A dataset read from any well-formed recording of the supported instruments, of any configuration and length down to a single ping or a single depth cell, is fit for every documented step: saving and loading it (netCDF, .mat, or one after the other) returns it, rotating it to any frame its instrument has and back restores it, its bin averages are the means of the samples read, it can be summarised, cleaned, motion corrected and analysed. The steps commute where they should: rotating, correcting declination, averaging, cleaning or analysing a stored and loaded copy gives what the same step gives on the dataset as read, and rotating a stretch of the record gives that stretch of the rotated record.",
  ["inputs", "histories"],
  "all recordings the readers accept, followed by any of the later steps in any order.",
  "Tests take a handful of stored recordings (git-LFS) through one step each, against stored results.",
  ["dolfyn/io/api.py", "dolfyn/io/base.py", "dolfyn/rotate/api.py", "dolfyn/velocity.py"],
  [("Dataset assembled from what was read", "dolfyn/io/base.py"), ("Storage", "dolfyn/io/api.py"), ("Rotation chain", "dolfyn/rotate/api.py")],
  ["dolfyn.read", "dolfyn.save/load", "save_mat/load_mat", "rotate2", "VelBinner"])

p("C36", "The command-line scripts do what the library does",
  "binary2mat.py writes, for every recording named on its command line, a .mat file beside it - named after the recording with its extension replaced, whatever the name - that holds what reading it and save_mat give. motcorrect_vector.py writes, as .mat (the default) or netCDF or both, each named Vector recording corrected for the motion of its head exactly as correct_motion does with the head geometry of the userdata file or of the fixed head and the filter frequency given (0.03333 Hz otherwise), in earth coordinates, with heading, pitch and roll those of its orientation matrix and the times as Matlab datenums; without a head geometry it writes nothing. No other file is touched.",
  ["inputs"],
  "all recordings the reader accepts, all combinations of options, any number of files, any file name and folder.",
  "No test runs the scripts (TODO.md: 'Add tests to confirm that all scripts work').",
  ["scripts/binary2mat.py", "scripts/motcorrect_vector.py", "dolfyn/io/api.py", "dolfyn/adv/motion.py"],
  [("Conversion script", "scripts/binary2mat.py"), ("Motion correction script", "scripts/motcorrect_vector.py")],
  ["binary2mat.py", "motcorrect_vector.py"])

p("C37", "Threads do not disturb each other",
  "Reading recordings (different ones or one and the same, with or without its Signature index), loading MATLAB files, rotating and correcting separate datasets, and running non-mutating analyses of one shared dataset with one shared binner give in several threads at once, in any interleaving, exactly what each call gives alone; shared datasets, binners and recordings stay as they were, and the index that is left behind is the complete one.",
  ["schedules", "inputs"],
  "any number of threads, any interleaving of their calls, any mix of jobs (netCDF files and the writing of MATLAB files excepted: the netCDF library and scipy's writer are not thread-safe).",
  "The tests are single-threaded.",
  ["dolfyn/io/api.py", "dolfyn/io/rdi.py", "dolfyn/io/nortek.py", "dolfyn/io/nortek2.py", "dolfyn/io/nortek2_lib.py", "dolfyn/io/nortek2_defs.py", "dolfyn/rotate/api.py", "dolfyn/binned.py", "dolfyn/velocity.py", "dolfyn/tools/psd.py"],
  [("Signature index file shared by readers of one recording", "dolfyn/io/nortek2_lib.py"), ("Module-level definitions shared by all readers", "dolfyn/io/*_defs.py"), ("Binner object shared by calls", "dolfyn/binned.py")],
  ["dolfyn.read", "load_mat", "rotate2", "VelBinner/ADVBinner/ADPBinner methods", "dolfyn.adv.clean, dolfyn.adp.clean"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
