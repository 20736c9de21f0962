RD = ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/vdif.cpp',
      'lsl/reader/drspec.cpp', 'lsl/reader/gofast.cpp']
RP = ['lsl/reader/drx.py', 'lsl/reader/drx8.py', 'lsl/reader/tbx.py', 'lsl/reader/cor.py', 'lsl/reader/vdif.py', 'lsl/reader/drspec.py']

prop('C01', 'Decoding arbitrary bytes is memory safe and fails only as documented',
     'Whatever bytes a file handle yields (valid, truncated, bit-flipped or random, in DRX, DRX8, TBX, COR, VDIF or DR '
     'spectrometer form), reading frames from it never reads or writes out of bounds, crashes, or has undefined behaviour, and '
     'ends in a frame, a SyncError, an EOFError or a RuntimeError, or passes on the I/O error of the handle. Objects the handle gave out and arrays the frame held are '
     'neither leaked nor released too often.',
     ['inputs', 'histories', 'fault_sequences'], 'all byte strings, all interleavings of readers, I/O errors at any call',
     'The tests decode a few well-formed sample files and a few corrupted ones without sanitizers.',
     RD, [('header validation and buffer sizing', 'lsl/reader/*.cpp'), ('reference handling on error paths', 'lsl/reader/*.cpp')],
     'ASan+UBSan builds under a structure-aware fuzzer, with reference-count monitors',
     'Holds on the executions observed; sanitizer coverage is that of the native extension code, not of numpy or CPython.',
     ['lsl.reader.*.read_frame', 'lsl.reader.*.read_frame_ci8', 'lsl.reader.vdif.read_frame_i8'])

prop('C02', 'Frames decode to exactly what their bytes say',
     'For every well-formed frame of the six raw formats, the header fields, identifiers, derived frequencies, sample rates and '
     'times, and every sample (complex, 8-bit complex and integer variants, every VDIF bit depth, every DR spectrometer product) equal '
     'what the format definition assigns to those bytes.  Frame arithmetic acts sample by sample and leaves its operands alone unless it is in place.',
     ['inputs'], 'all header field values, modes and payloads the formats can carry',
     'The tests look at a handful of frames in five sample files, with a few header values each.',
     RD + RP + ['lsl/reader/base.py'], [('unpacking lookup tables', 'lsl/reader/*.cpp'), ('frame classes', 'lsl/reader/*.py')],
     'differential monitor: independent encoders vs. decoded frames',
     'Random fields and payloads incl. boundary values; the encoders in vf/frames.py are the specification.',
     ['read_frame of every reader'])

prop('C03', 'Sequential reading: every frame once, errors in the right place',
     'Reading a stream frame by frame yields its frames once each and in order and leaves the handle right behind each frame, '
     'whatever other files, formats, modes or errors were read before in the process.  A frame with a damaged sync word gives a SyncError that '
     'names its position, an incomplete last frame gives an EOFError; the file summary helpers (frame sizes, sample rates, beam, channel, '
     'thread and frame counts) report what the stream holds and do not move the handle.',
     ['histories', 'inputs', 'fault_sequences'], 'all interleavings of streams of all formats and modes, with truncation or a damaged sync word',
     'The tests read one file at a time from the start; decoders that cache the mode of the last frame are never interleaved.',
     RD + RP, [('frame size and mode detection', 'lsl/reader/tbx.cpp, cor.cpp, vdif.cpp, drspec.cpp'), ('error mapping', 'lsl/reader/*.py')],
     'online trace checker over interleaved streams with injected faults',
     'COR truncation is only judged when less than the smallest frame is left, because the format has no frame length.',
     ['read_frame', 'get_* helpers'])

prop('C04', 'Timestamps are exact and their representations agree',
     'A timestamp made from a 196 MHz time tag gives that time tag back exactly, its MJD, pulsar-MJD, Julian date, UNIX, TAI and '
     'datetime forms agree with it, and the constructors from those forms invert them.  Timestamps and frames are ordered exactly as their time tags, and sums and '
     'differences with seconds or timedeltas are right to the tick and leave their operands alone.',
     ['inputs'], 'all time tags from 2000 to 2036, including second, day and leap-second boundaries, and all pairs of them',
     'The tests use a few dates; the failing ones lie at day ends, at fractions that round to one, and on leap-second days.',
     ['lsl/reader/base.py'], [('split integer/fraction arithmetic', 'lsl/reader/base.py FrameTimestamp')],
     'runtime oracle in integer arithmetic',
     'astropy is trusted; sums on days that end in a leap second are not judged.', ['lsl.reader.base.FrameTimestamp'])

prop('C05', 'Frame buffers put frames in time order, exactly once, and fill the gaps',
     'Whatever the order of arrival, losses, duplicates and late frames, a frame buffer gives out segments in strictly increasing time, each with '
     'exactly one frame per expected source: the first copy received or, if none came, a frame of zeros marked invalid.  Frames that come after their segment went out '
     'are refused and counted; nothing else is lost, and the full, partial, missing and dropped counts add up.',
     ['schedules', 'histories', 'fault_sequences'], 'all arrival sequences, ring sizes, batchings and drain policies for DRX, DRX8, TBX, VDIF and COR',
     'The tests feed one complete, ordered DRX file.',
     ['lsl/reader/buffer.py'], [('ring of segments keyed by time', 'FrameBufferBase.append/get/flush'), ('fill frames', 'create_fill')],
     'online conservation/ordering monitor against a model of the arrivals',
     'The COR buffer is run with a subset of the stands; the ring logic is shared.', ['append', 'get', 'flush', 'peek', 'statistics'])

prop('C06', 'High-level file readers return every sample once, on the right time',
     'Reading a recording through the LDP file objects in chunks of any size gives the samples of the file once each, in order, at the right input and channel, '
     'with the time of the first sample of each chunk exact, until EOFError.  Lost, unreadable or slightly reordered frames come back as '
     'zeros or in order without shifting anything else; reset() starts over, offset() moves by what it reports, and the data type or '
     'a file split into parts changes nothing.',
     ['histories', 'inputs', 'fault_sequences'], 'all chunkings, resets and offsets over all recordings of DRX, DRX8, TBX, DR spectrometer and COR data',
     'The tests read the first chunk of short gap-free sample files.',
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py', 'lsl/reader/utils.py'], [('buffered reads and gap filling', 'lsl/reader/ldp.py read()'), ('offset()', 'lsl/reader/ldp.py')],
     'model-based monitor of chunked reads with injected losses',
     'Gaps are kept inside the documented auto-fill limit and away from the first frames (which describe the file) and the last ring of the file.',
     ['DRXFile, DRX8File, TBXFile, DRSpecFile, CORFile, LWADataFile'])

prop('C07', 'A split recording reads like the one file it came from',
     'Any sequence of reads, seeks and position queries on a recording split over several files gives the bytes and positions that '
     'the concatenated file gives, wherever the cuts are; saving a file position restores it even when an exception passes.',
     ['histories', 'inputs'], 'all cuts (including empty parts) and all operation sequences',
     'The tests open one split file and read it from the start.',
     ['lsl/reader/utils.py'], [('part lookup and hand-over', 'SplitFileWrapper')],
     'differential monitor against io.BytesIO', 'Random operation sequences; parts are not modified while open.',
     ['SplitFileWrapper.read/seek/tell', 'FilePositionSaver'])

CR = ['lsl/correlator/fx.py', 'lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/common.hpp', 'lsl/correlator/blas.hpp']

prop('C08', 'Integrated spectra are the mean power of the valid transforms',
     'For real, complex and 8-bit complex data of any type and shape, with any transform length, window function or '
     'polyphase filter bank and clip level, SpecMaster gives per antenna and channel the mean over the transforms that reach no clip level of the squared magnitude '
     'of the transform (over its length), StokesMaster the I, Q, U and V of each dual-polarization pair, at '
     'the frequencies it returns.  Antennas do not influence each other and the input is not changed.',
     ['inputs'], 'all data types, shapes, transform lengths (odd ones and ones that do not divide the data included), windows, taps and clip levels',
     'The tests run a few fixed sizes; many compare only shapes.',
     CR, [('spectrometer kernels', 'lsl/correlator/spec.cpp'), ('Stokes spectrometer kernels', 'lsl/correlator/stokes.cpp'), ('wrappers', 'lsl/correlator/fx.py')],
     'differential monitor against a float64 numpy reference', 'Judged with a normwise single-precision tolerance.',
     ['SpecMaster', 'StokesMaster'])

prop('C09', 'FX correlation: visibilities are the delay-corrected cross products',
     'FXMaster gives for every baseline and channel the mean over the transforms valid at both antennas of X_i times conj(X_j), where X are the transforms of '
     'the signals after the cable delays and the geometric delays toward the phase center are taken out (whole samples by shifting, the rest by phase); '
     'FXStokes the corresponding I, Q, U and V.  Baselines, frequencies, polarization products, the auto-correlation option and the cable gain correction are as documented, and a signal '
     'from the phase center comes out with the same phase on every baseline.',
     ['inputs'], 'all arrays, cables, phase centers, data types, transform lengths, overlaps, windows, filter banks, clip levels and polarizations',
     'The tests compare a few zenith cases of one layout with a slow copy of the same algorithm.',
     CR + ['lsl/correlator/uvutils.py'], [('F engine: delay FIFO and phase rotator', 'lsl/correlator/core.cpp'), ('X engine', 'lsl/correlator/core.cpp, stokes.cpp'), ('delay bookkeeping', 'lsl/correlator/fx.py')],
     'differential monitor against a float64 reference, plus fringe-stopping workloads', 'U and V of FXStokes are a recorded known finding (built from XY alone, as the test suite pins them).',
     ['FXMaster', 'FXStokes'])

prop('C10', 'X engine on frequency-domain data agrees with the FX correlator',
     'XMaster and XStokes applied to channelized data give the mean cross products after the cable and geometric delays are removed by phase, '
     'for complex input and input as pairs of 8-bit integers, every baseline and polarization product; channelizing and then using them agrees with the '
     'FX correlator where both apply the same delays.',
     ['inputs'], 'all arrays, cables, phase centers, data types, channel counts and polarizations',
     'The tests use one layout and compare only shapes for most options.',
     CR, [('X engine phase rotation', 'lsl/correlator/core.cpp XEngine2, stokes.cpp XEngine3'), ('wrappers', 'lsl/correlator/fx.py XMaster, XStokes')],
     'differential monitor against a float64 reference and against the FX chain', 'U and V of XStokes are a recorded known finding, as in C09.',
     ['XMaster', 'XStokes'])

prop('C11', 'Station descriptions carry exactly what their files say, through every copy',
     'A station parsed from a text or binary SSMIF file has one antenna per installed element, in digitizer order, each with the stand position, polarization, '
     'orientation, status, FEE, cable, ARX channel and board that the file connects to it; text and binary forms of the same station agree, and '
     'copies and pickles are equal to the original in every one of these.  Cable delay, attenuation and gain follow the dispersive cable model, '
     'and conversions between geographic, geocentric and local coordinates agree with WGS84 geodesy.',
     ['inputs', 'histories'], 'all station layouts and wirings the SSMIF formats can describe, all cables and frequencies, all pairs of locations',
     'The tests parse the three shipped station files, where wiring is regular enough that a wrong index goes unnoticed.',
     ['lsl/common/stations.py'], [('SSMIF parsers', 'parse_ssmif, __parse_text_ssmif, __parse_binary_ssmif'), ('copy and pickle support', '__reduce__'), ('cable model', 'Cable'), ('geodesy', 'LWAStation, geo_to_ecef, ecef_to_geo')],
     'differential monitor: independent SSMIF encoders and a closed-form cable and geodesy model',
     'Which cable a per-stand ASP attenuator setting belongs to is not judged.', ['lsl.common.stations.parse_ssmif', 'LWAStation', 'Antenna', 'Stand', 'Cable'])

prop('C12', 'Baselines, uvw coordinates and uv tracks are right for every array and source',
     'The baseline list holds each pair of antennas once, in the documented order, and its index and pair lookups invert each other.  '
     'The uvw coordinates of a baseline are its projection, in wavelengths, on the east, north and line-of-sight axes of the source, for every '
     'frequency; uv tracks are the projection over hour angle, without gaps.',
     ['inputs'], 'all arrays, sites, phase centers (given in any accepted angle type), times and frequency arrays of any shape',
     'The tests check shapes, and values for zenith and one baseline.',
     ['lsl/correlator/uvutils.py'], [('baseline numbering', 'get_baselines, baseline_to_antennas, antennas_to_baseline'), ('uvw', 'compute_uvw'), ('tracks', 'compute_uv_track')],
     'differential monitor against an independently built source frame', 'Random arrays and sources; judged to 1e-9 of the baseline length.',
     ['lsl.correlator.uvutils'])

prop('C13', 'MCS and NDP encodings convert exactly both ways',
     'Every 16-bit delay and gain word, tuning word and (MJD, MPM) pair survives decoding and re-encoding unchanged, and values between them are encoded to '
     'within one step; times are right in every time zone.  A structure parsed from a C declaration has the size, field offsets, byte order and values that a 64-bit C '
     'compiler gives it, MIB entries give back the stored value of every data type, and pointing corrections are proper rotations about the given axis.',
     ['inputs'], 'all 16-bit words, tuning words, times, structure declarations, MIB entries and axes',
     'The tests convert two or three values of each kind.',
     ['lsl/common/mcs.py', 'lsl/common/ndp.py'], [('fixed point and byte order conversions', 'lsl/common/ndp.py, mcs.py'), ('C structure parser', 'parse_c_struct, flat_to_multi'), ('MIB', 'MIBEntry.from_entry, MIB.from_file'), ('pointing', 'apply_pointing_correction')],
     'runtime oracle: integer/struct.pack models, exhaustive over the 16-bit words', 'Negative gains are not judged (the functions are documented for 0 to 1).',
     ['lsl.common.mcs', 'lsl.common.ndp'])

prop('C14', 'Metadata tarballs are read faithfully, in private, and stay contained',
     'The session, observation (stepped and custom-beam included), command, dynamic status, station, ASP and text metadata returned for an MCS tarball are what its members '
     'hold, whatever their order and compression and whatever tarball of the same name was read before.  Whatever names, links or special files a tarball contains, reading '
     'it writes only inside a private temporary directory, and removes that again.',
     ['inputs', 'histories', 'fault_sequences'], 'all sessions and member orders, including hostile tarballs',
     'The tests read one tarball with a single simple observation.',
     ['lsl/common/metabundle.py', 'lsl/common/_metabundle_utils.py', 'lsl/common/sdm.py'], [('member extraction', 'managed_mkdtemp, tf.extract loops'), ('binary readers', 'read_ses_file, read_obs_file, read_cs_file, parse_sdm'), ('tarball cache', '_open_tarball')],
     'differential monitor with independent encoders, and a process-wide audit hook on file system writes', 'Truncated session files are not judged.',
     ['lsl.common.metabundle', 'lsl.common.sdm'])

prop('C15', 'File locks exclude, and caches neither lose, tear nor leak what they hold',
     'At most one thread of one process at a time holds a lock on a file, every waiter gets its turn, a held lock may be taken again by its holder, and '
     'a process that is killed while holding it leaves it free.  Caches give back what was last written, whole, whatever other processes and threads do '
     'with them; appended records are all there; an exception or a missing file leaves the cache usable; enforcing the size limit removes only the oldest files, never the one in use.',
     ['schedules', 'crash_points', 'histories'], 'all interleavings of processes and threads, kills inside of critical sections, and operation histories',
     'The tests open one cache from one thread.',
     ['lsl/misc/file_lock.py', 'lsl/misc/file_cache.py'], [('lock protocol', 'FileLock.acquire, release'), ('cache bookkeeping', 'FileCache, MemoryCache, MemoryFile')],
     'offline checker of an event log (mutual exclusion, conservation, torn reads) under process and thread stress with SIGKILLs; model-based histories',
     'Two FileLock objects for one file nested in one thread are not judged.',
     ['lsl.misc.file_lock.FileLock', 'lsl.misc.file_cache.FileCache', 'lsl.misc.file_cache.MemoryCache'])

prop('C16', 'Data files are complete and right, or refused',
     'A data file opened through the data access layer is byte for byte what the package or one of the two servers holds, however the servers fail (truncated, reset, refused, stalled, compressed or '
     'damaged transfers, errors, redirects), however the process that downloads it ends, and however many processes ask for it at once; if neither server delivers it, opening it raises a RuntimeError and '
     'a later attempt starts afresh.  Old copies are replaced if and only if there is something newer, and download_file and check_url report sizes and times truthfully.',
     ['fault_sequences', 'crash_points', 'histories', 'schedules'], 'all transfer faults of both servers, kills and interrupts at any time, and concurrent clients',
     'The tests need the real network and download one or two files.',
     ['lsl/common/data_access.py', 'lsl/misc/file_cache.py'], [('transfer and its checks', 'download_file'), ('cache life cycle', '_DataAccess.fetch_data_file, _download_worker, _local_copy_worker')],
     'fault injection by a local server pair, with a monitor that compares every opened file with what was served', 'Files of at least 3 bytes (the code takes shorter ones for failures). FTP sources are not exercised.',
     ['lsl.common.data_access.DataAccess', 'lsl.common.data_access.download_file', 'lsl.common.data_access.check_url'])

prop('C17', 'The configuration survives sessions, crashes and concurrent use',
     'What a session sets is what it and the next session read, with its type; temporary values are undone however the block ends and never saved; a session that is killed while saving leaves either the '
     'old or the new configuration, and one that loads while another saves sees one or the other as a whole.  Changes on disk win over those of the session, with a warning; a directory that cannot be written to '
     'costs a warning and persistence, nothing else; wrong types and unknown names are refused.',
     ['histories', 'crash_points', 'schedules', 'fault_sequences'], 'all histories of sessions, kill points while saving, and concurrent sessions',
     'The tests work within a single session.',
     ['lsl/config.py', 'lsl/misc/file_lock.py'], [('load and save', 'LSLConfigContainer._load_config, _save_config'), ('access', 'get, set, set_temp, view')],
     'trace checker over forked sessions against a dictionary model, SIGKILL at a random profile event of the save', 'String values that read as a number, True or False, or that start or end in blanks are not judged (the file format cannot hold them).',
     ['lsl.config.LSL_CONFIG'])

prop('C18', 'Visibility files give back what was written, baseline by baseline',
     'Visibilities, weights, times, integration times, frequencies, polarizations, antennas, positions, sources and (u,v,w) coordinates written with any of the visibility writers (FITS-IDI, AIPS and extended '
     'FITS-IDI, UVFITS, measurement set, virtual) are what the readers give back for each stand pair, whatever the stand numbers, the baseline order and choice of each integration, the order in which the data sets were '
     'added, the polarizations, the spectral windows and the phase centers.  The (u,v,w) coordinates are those of the stand positions for that source and time.  An existing file is replaced only on request.',
     ['inputs', 'histories'], 'all arrays, baseline lists, polarization and frequency setups, data set orders and phase centers',
     'The tests write one integration of one array with a fixed baseline order and compare a few values.',
     ['lsl/writer/fitsidi.py', 'lsl/writer/uvfits.py', 'lsl/writer/measurementset.py', 'lsl/writer/virtual.py', 'lsl/imaging/utils.py', 'lsl/correlator/uvutils.py'],
     [('data set ordering and packing', '_write_uvdata_hdu, _write_primary_hdu, _write_main_table'), ('readers', 'CorrelatedDataIDI, CorrelatedDataUV, CorrelatedDataMS')],
     'differential monitor: write, read back, compare per stand pair; independent (u,v,w) oracle', 'Each polarization of an integration has the same set of baselines; at least two channels; frequencies increase; (u,v,w) to 1e-3 of the longest baseline.',
     ['lsl.writer.fitsidi', 'lsl.writer.uvfits', 'lsl.writer.measurementset', 'lsl.writer.virtual', 'lsl.imaging.utils.CorrelatedData'])

prop('C19', 'The numerical kernels are memory safe whatever they are called with',
     'Spectrometers, correlators, beamformer, gridder and visibility simulator either complete or raise an ordinary exception, for every combination of data shape, sample type, byte order and '
     'layout, transform length, overlap, blanking level, sample rate, delays, window function, grid, coordinates (not-a-number and infinity included), baselines and channels; they never read or write outside of their arrays, '
     'execute undefined operations, or crash the interpreter.  Well-formed calls complete.',
     ['inputs'], 'all arguments of the functions that run native code',
     'The tests make well-formed calls with a few sizes, without sanitizers.',
     ['lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/common.hpp', 'lsl/misc/beamformer.cpp', 'lsl/imaging/gridder.cpp', 'lsl/sim/simfast.cpp'],
     [('argument checks', 'FEngine, PFBEngine, FPSD, PFBPSD, XEngine2, XEngine3, phase_and_sum, WProjection, FastVis'), ('kernels', 'compute_fengine_*, compute_spec_*, compute_stokes_*, compute_gridding, compute_fast_vis')],
     'AddressSanitizer and UndefinedBehaviorSanitizer under random well-formed and hostile calls', 'Judged through the Python functions; transform lengths up to 2^20.',
     ['lsl.correlator.fx', 'lsl.misc.beamformer', 'lsl.imaging.utils.build_gridded_image', 'lsl.sim.vis.build_sim_data'])

prop('C20', 'Results do not depend on threads',
     'Every spectrometer, correlator, beamformer, gridder and simulator call gives the same result (to rounding) whatever the number of OpenMP threads and however these are scheduled, and the same as alone when other such calls, or '
     'frame readers, run in other Python threads on their own data; frames read from different files in different threads are what they are when read alone.  There are no data races in the native code, and the FFTW planner is never entered twice.',
     ['schedules', 'inputs'], 'all thread counts, OpenMP schedules and interleavings of concurrent calls',
     'The tests run one call at a time and cannot see a race.',
     ['lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/misc/beamformer.cpp', 'lsl/imaging/gridder.cpp', 'lsl/sim/simfast.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp'],
     [('parallel regions', 'omp parallel / omp for / omp critical'), ('state shared by calls', 'window function, frame size caches, FFTW planner')],
     'ThreadSanitizer on an instrumented OpenMP runtime with perturbed schedules; differential runs over thread counts and concurrent calls', 'lsl.misc.wisdom, which plans without the GIL on purpose, is left out; threads share no data.',
     ['lsl.correlator.fx', 'lsl.misc.beamformer', 'lsl.imaging.utils.build_gridded_image', 'lsl.sim.vis.build_sim_data', 'lsl.reader'])

prop('C21', 'Visibility containers never lose, mix up or share visibilities',
     'After any history of operations on PolarizationDataSet, VisibilityDataSet and VisibilityData (append, extend, sort, pop, item assignment, copy, (u,v) range and antenna selection, Stokes, linear and circular conversion) each '
     'visibility still has its own baseline, coordinates, weight, mask, polarization and time; selections hold exactly the baselines that qualify in every integration; copies, selections and conversions share nothing '
     'with what they came from; refused operations change nothing.',
     ['histories', 'inputs'], 'all operation sequences over all baseline lists, polarizations and numbers of integrations',
     'The tests apply single operations to one simulated data set and count baselines.',
     ['lsl/imaging/data.py', 'lsl/imaging/utils.py'], [('containers', 'PolarizationDataSet, VisibilityDataSet, VisibilityData'), ('conversions', 'convert_to_stokes, convert_to_linear, convert_to_circular')],
     'model-based monitor: one row per visibility, all live objects compared after every step', 'One thread per object.',
     ['lsl.imaging.data', 'lsl.imaging.utils.convert_to_*'])

prop('C22', 'Simulated visibilities obey the measurement equation',
     'build_sim_data gives, for every baseline, channel, polarization and time, the sum over the sources above the horizon of flux, source shape, beam and geometric phase relative to the phase center, with the matching (u,v,w), '
     'whatever the array, baseline list, phase center form and order of times, and the same again when repeated.  rephase() gives the data and coordinates of the new center, is undone by rephasing back, and refuses '
     'a center below the horizon without changing anything.  scale_data, shift_data and add_baseline_noise apply their gains, positions and noise levels to the right antennas of every integration and leave their input alone; copies of '
     'an AntennaArray keep its time and place.',
     ['inputs', 'histories'], 'all arrays, skies, times, baselines, phase centers and effects',
     'The tests simulate one array at one time and mostly look at shapes.',
     ['lsl/sim/vis.py', 'lsl/sim/simfast.cpp', 'lsl/imaging/data.py'], [('simulation', 'build_sim_data, FastVis'), ('phase center', 'VisibilityDataSet.rephase'), ('effects', 'scale_data, shift_data, add_baseline_noise')],
     'differential monitor against the measurement equation with independent pointing', 'Phases to a few microradians of pointing (1e-4 rad where the phase center goes through astropy, which knows UT1); noise judged by its second moments.',
     ['lsl.sim.vis', 'lsl.imaging.data.VisibilityDataSet.rephase'])

prop('C23', 'Images are the Fourier sum of the visibilities, placed right on the sky',
     'A gridded image is the Fourier sum of the visibilities of the selected polarization and channels, for any grid, including odd widths and non-zero w; it is linear in the data, does not depend on the order or sense of the '
     'baselines, adds up over integrations, channels, calls and images, and reading it out in any weighting, taper or centering changes nothing.  Tapers act along their own axis.  The coordinates of the pixels (direction cosines, '
     'RA and dec., azimuth and altitude, WCS) are those of the projection about the phase center, so that a source shows up where it is.',
     ['inputs', 'histories'], 'all visibilities, grids, phase centers and read-out orders',
     'The tests build an image from one file and check that nothing is raised.',
     ['lsl/imaging/utils.py', 'lsl/imaging/gridder.cpp'], [('gridding', 'build_gridded_image, WProjection'), ('images', 'ImgWPlus.image, bm_image, wcs'), ('coordinates', 'get_image_radec, get_image_azalt')],
     'differential monitor against the direct Fourier sum, metamorphic relations, end-to-end source positions', 'Values judged in the inner half of the image to 8 percent of the peak (gridding), relations to rounding; unit weights; positions to 1.5 pixels.',
     ['lsl.imaging.utils.build_gridded_image', 'lsl.imaging.utils.ImgWPlus', 'lsl.imaging.utils.get_image_radec', 'lsl.imaging.utils.get_image_azalt'])

prop('C24', 'Session definition files say what was asked for and read back the same',
     'A session built from any mix of observations renders to an SDF whose every keyword holds the value asked for (start, duration, frequency words, steps, station settings, comments), with defaults where nothing was set, and parse_sdf() of that file gives '
     'the same project, which renders the same again; settings of one observation or step never leak into another.  Sessions that break a limit of the station (frequencies, filters, pointing and visibility, duration, step count, gains, mode rules) do not validate or are refused, and those within '
     'the limits do.  Start times and durations in every accepted form (strings with time zones, datetimes, astropy times and quantities, seconds) give the same instant to the millisecond.',
     ['inputs', 'histories'], 'all projects within and just outside of the limits, all observation orders, all time and angle forms',
     'The tests read and write a few sample files, one mode each, where leaks between observations and boundary values do not show.',
     ['lsl/common/sdf.py', 'lsl/common/_sdf_utils.py'], [('objects and limits', 'Project, Session, Observation, BeamStep'), ('writing', 'Project.render'), ('reading', 'parse_sdf')],
     'round-trip monitor with an independent key/value reader, and verdict oracle on boundary mutations', 'Visibility is judged a few degrees away from the horizon.  The pointing model of the station is not modelled.',
     ['lsl.common.sdf.Project', 'lsl.common.sdf.parse_sdf', 'lsl.common.sdf.parse_time'])

prop('C25', 'Interferometer runs read back the same and give each station its session',
     'A run built from any mix of scans and alternate phase centers renders to an IDF whose every keyword holds the value asked for, and parse_idf() of that file gives the same project, which renders the same again; settings of one scan or phase center never leak into another.  '
     'generate_sdfs() gives one SDF per station of the run, for that station, with one observation per scan that has its time, duration, proper-motion corrected pointing, frequencies, filter, gains and comments.  Runs outside of the limits do not validate or are refused, and those within do.',
     ['inputs', 'histories'], 'all runs within and just outside of the limits, all scan orders and station lists',
     'The tests read and write a few sample files with one or two scans.',
     ['lsl/common/idf.py', 'lsl/common/sdf.py', 'lsl/common/_sdf_utils.py'], [('objects and limits', 'Project, Run, Scan, PhaseCenter'), ('writing', 'Project.render, generate_sdfs'), ('reading', 'parse_idf')],
     'round-trip monitor with an independent key/value reader, and verdict oracle on boundary mutations', 'Visibility is judged a few degrees away from the horizon.',
     ['lsl.common.idf.Project', 'lsl.common.idf.parse_idf'])

prop('C26', 'Astronomical times, angles and coordinates convert consistently',
     'Every conversion of lsl.astro and lsl.transform between angle formats, calendar dates and Julian days, time scales (UTC, TAI, TT, TDB, MJD/MPM, Unix, sample clocks) and positions (equatorial of any epoch, apparent, ecliptic, galactic, horizontal, rectangular, geodetic) is '
     'right for every input: it agrees with an independent computation, with its inverse and with the other paths to the same quantity, at the wraps (midnight, RA 0h, poles, negative zero) as elsewhere.  Rise, set and transit times are when the source is at the horizon or the meridian; '
     'positions and times keep their frame, motion and value when copied, pickled or compared.',
     ['inputs'], 'all dates, angles, sites and directions',
     'The tests compare a few tabulated values to a few digits.',
     ['lsl/astro.py', 'lsl/transform.py'], [('angles', 'hms, dms, deg_to_hms, add_hms'), ('times', 'date, zonedate, get_julian_day, utc_to_tai, taimjd, Time'), ('positions', 'equ_posn, hrz_posn, gal_posn, get_hrz_from_equ, get_equ_rst'), ('bodies', 'get_solar_equ_coords, PlanetaryPosition')],
     'differential monitor against ephem, astropy and exact rational arithmetic; round trips', 'Positions to arcseconds (arcminutes through the built-in ephemeris); dates of 1973 to 2024 where leap seconds matter.',
     ['lsl.astro', 'lsl.transform'])

prop('C27', 'Beams, filter banks and dedispersion treat every sample right',
     'phase_and_sum() gives the mean of the good antennas of each polarization with the delays of calc_delay() (cable minus geometry toward the pointing) taken out, so that a plane wave from the pointing comes out as it went in, for every array, data type, channel and block length.  '
     'The filter bank gives the sinc-weighted, windowed transform for any number of channels and taps.  Incoherent dedispersion moves every channel by its delay and nothing else, wrapping or filling the end.  Coherent dedispersion removes the dispersion delay at every frequency, keeps time '
     'with the samples, and gives the same stream however it is cut into blocks and whatever the cache holds.  None of them changes its input.',
     ['inputs', 'histories'], 'all arrays, pointings, signals, bands, DMs and cuts into blocks',
     'The tests run each function once or twice on one signal.',
     ['lsl/misc/beamformer.py', 'lsl/misc/beamformer.cpp', 'lsl/correlator/filterbank.py', 'lsl/misc/dedispersion.py'], [('beamforming', 'calc_delay, phase_and_sum, BEngine, circularize'), ('channelizing', 'filterbank.fft'), ('dedispersion', 'delay, incoherent, coherent')],
     'differential monitor against plane waves, direct sums and pulse arrival times; block-cutting relations', 'Beams to single precision; pulse arrival to 0.6 samples; dedispersion windows up to 8192 samples.  phase_beam_shape() is not judged (needs a downloaded antenna model).',
     ['lsl.misc.beamformer', 'lsl.correlator.filterbank.fft', 'lsl.misc.dedispersion'])

prop('C28', 'Statistics and numerical helpers compute what they document',
     'The robust mean, biweight mean, half-sample mode and deviation are those of the published estimators for every sample, whatever its order, shape, type, mask and axis, and resist outliers; robust line and polynomial fits recover the line or polynomial of any order under outliers and masks.  '
     'Spectral kurtosis has the definition and the exact moments of its estimator along any axis, its limits cut the stated fraction of noise and leave the floating point settings alone; the run test is the Wald-Wolfowitz test.  Regridding, smoothing, downsampling, '
     'complex, decibel, non-uniform Fourier, Gaussian, scattering and radio frequency helpers give their defined values and undo each other where they come in pairs.',
     ['inputs'], 'all samples, shapes, types, masks, orders and parameters',
     'The tests use a few fixed samples, one axis, one order, no masks and no ties.',
     ['lsl/statistics/robust.py', 'lsl/statistics/kurtosis.py', 'lsl/statistics/stattests.py', 'lsl/misc/mathutils.py', 'lsl/misc/scattering.py', 'lsl/misc/rfutils.py'],
     [('estimators', 'robust.mean, std, mode, biweight_mean'), ('fits', 'robust.linefit, polyfit'), ('kurtosis', 'spectral_power, get_limits'), ('helpers', 'mathutils, scattering.unscatter, rfutils')],
     'differential monitor against independent statements of the estimators, exact moments and constructed data', 'Samples with points on the very edge of a cut are skipped (rounding decides); limits judged by simulation to 30 percent of the tail.',
     ['lsl.statistics', 'lsl.misc.mathutils', 'lsl.misc.scattering', 'lsl.misc.rfutils'])

prop('C29', 'Simulated frames, VDIF frames and SDFITS files hold what was asked for',
     'A simulated DRX frame holds exactly the identifiers, time, flags and samples given (rounded and clipped to four bits) and reads back as such; a frame loaded from another is written back unchanged, and one that breaks the format is refused before a byte is written.  basic_signal() writes the documented '
     'tones, continuous in time with consecutive time tags, on every beam, tuning and polarization.  A VDIF frame of any bit depth and type holds the samples, station, sample rate and the epoch, second and frame number of the time given, at second and epoch boundaries as elsewhere.  '
     'An SDFITS file holds each spectrum of every integration, beam and polarization under its own time, scan, exposure, frequency and Stokes axes, in whatever order they were added, and an existing file is not overwritten unless asked.',
     ['inputs', 'histories'], 'all identifiers, samples, bit depths, times, rates, polarization lists and insertion orders',
     'The tests write one frame or a few equal spectra and read some header fields back.',
     ['lsl/sim/drx.py', 'lsl/sim/ndp.py', 'lsl/writer/vdif.py', 'lsl/writer/sdfits.py', 'lsl/writer/fitsidi.py'], [('DRX', 'SimFrame, frame_to_frame, basic_signal'), ('VDIF', 'Frame'), ('SDFITS', 'Sd, WriterBase')],
     'round-trip monitor with independent decoders (bytes, astropy) and the LSL readers', 'Frame rates with a whole number of frames per second; samples within the range of the bit depth for VDIF; days that end in a leap second are not judged.  Times to 0.2 ms in SDFITS (the file stores day and second of day from Julian dates).',
     ['lsl.sim.drx.SimFrame', 'lsl.sim.ndp.basic_signal', 'lsl.writer.vdif.Frame', 'lsl.writer.sdfits.Sd'])

prop('C30', 'Calibration, cleaning, source finding and overlays keep things in place',
     'Self-calibration of noiseless data recovers the antenna gains, delays and phases (relative to the reference antenna) that were put in, for every mode, array, channel list, reference antenna and with or without auto-correlations; the calibrated data are always the input data times the gains returned, in every polarization, '
     'equal the model when convergence is reported, and the inputs are unchanged.  CLEANed images keep each source at its pixel with its flux and remove its sidelobes, wherever it lies in the sky (0h of right ascension too) and whatever the image size and resolution.  The estimated background follows the image up to its corners, and '
     'the source finder reports each source, and nothing else, at its sub-pixel place.  Overlays are drawn where the image has that direction.',
     ['inputs'], 'all arrays, skies, corruptions, image geometries and overlays',
     'The tests call each function once on one file with a single iteration, or compare a mean to the nearest integer.',
     ['lsl/imaging/selfcal.py', 'lsl/imaging/deconv.py', 'lsl/imaging/analysis.py', 'lsl/imaging/overlay.py'], [('calibration', 'phase_only, delay_only, delay_and_phase'), ('deconvolution', 'clean, clean_sources'), ('images', 'estimate_background, find_point_sources'), ('overlays', 'sources, horizon, graticule_azalt, graticule_radec')],
     'planted-truth monitor (known gains, sources, backgrounds and directions) over simulated skies', 'Starting phases within half a turn of each baseline; sources above 40 degrees for cleaning; positions to a pixel.  deconv.lsq() is not judged (its iteration does not converge on point sources).',
     ['lsl.imaging.selfcal', 'lsl.imaging.deconv.clean', 'lsl.imaging.deconv.clean_sources', 'lsl.imaging.analysis', 'lsl.imaging.overlay'])

prop('C31', 'Antenna patterns, sky maps and signal-chain responses are those of their models',
     'For every direction (a number, an array or a map; in degrees, radians, or as ephem or astropy angles), frequency and polarization product, the response of a dipole and its Mueller matrix are those of the chosen model: the empirical fits, with or without the correction at low altitude, or the electromagnetic models, whose fields are '
     'normalized to one and interpolated in frequency, altitude and azimuth (across north too), and the Stokes responses are those of the Mueller matrix.  The sky maps hold the sum of their components at the frequency asked for, and their projection over a site holds each visible pixel, and no other, at its altitude, azimuth and direction cosines '
     'with its share of the power.  Antennas, front ends, cables and ARX boards return the response tabulated for the filter named, in dB or linear units.  Impedances, mismatch efficiencies and patterns are those in the NEC output, which is made again when it is for another frequency.',
     ['inputs'], 'all models, directions and their representations, frequencies, polarizations, sites, times, filters and NEC outputs',
     'The tests call each model once at one direction and mostly check that something is returned; the electromagnetic models need a download and are skipped offline.',
     ['lsl/sim/beam.py', 'lsl/skymap.py', 'lsl/sim/necutils.py', 'lsl/common/stations.py'], [('patterns', 'beam_response, mueller_matrix'), ('sky maps', 'SkyMapGSM, SkyMapLFSM, ProjectedSkyMap'), ('NEC', 'NECImpedance, NECPattern, change_nec_freq, calculate_ime'), ('responses', 'Antenna.response, FEE.response, Cable.response, ARX.response')],
     'differential monitor against independent implementations of the models, with model files served over loopback', 'Azimuths from 0 to 360 and altitudes from 0 to 90 degrees; maps of 49152 pixels for the visible power; projected positions to 0.03 degrees.',
     ['lsl.sim.beam', 'lsl.skymap', 'lsl.sim.necutils', 'lsl.common.stations'])

prop('C32', 'A source looked up in a catalog is that source, where the catalog puts it',
     'Every catalog holds exactly the sources of its data file: each is found under its name and each of its aliases, with the name, aliases and position that the file gives (precessed from B1950 where the file is for that epoch), with southern declinations between 0 and -1 degrees kept south; a catalog is a read-only mapping of its primary names that '
     'also answers to aliases, says so when a name is not there, and is read once.',
     ['inputs'], 'all entries and aliases of all shipped catalogs, all Fermi tables, all absent names',
     'The tests look up three sources of one of the ten catalogs.',
     ['lsl/catalog.py', 'lsl/transform.py', 'lsl/astro.py'], [('catalogs', 'Catalog, LWA_Catalog, PSR_Catalog, PKS_Catalog, PKS90_Catalog, C3C_Catalog, C4C_Catalog, Fermi_LAT_Catalog, CatalogFactory')],
     'exhaustive differential monitor against an independent reader of the data files', 'Where two sources of a file share a name or an alias either may be found.  Positions to 0.07 arcsec, 54 arcsec where they are precessed from B1950.',
     ['lsl.catalog'])

prop('C33', 'Magnetic field, electron content and pierce points follow the models and maps',
     'For every place, height and time from 1900 to 2030 the magnetic field is the IGRF field at that instant, in local (north, east, up) or Earth-fixed components, with the declination and inclination it has.  The ionospheric pierce point is where the line of sight reaches the given height, for every site, azimuth and elevation.  The electron content at any instant and place '
     'is interpolated between the two neighbouring maps of that day and the four neighbouring points, the map itself at the time of a map, with its uncertainty (five percent where the provider gives none), from the final product where it can be had from either server and the rapid one otherwise; maps are fetched once, a day without a map is an error and a failed or damaged '
     'download does not stand in for one.',
     ['inputs', 'histories', 'faults'], 'all places, times, directions, providers, map spacings, missing values and server failures',
     'The tests compute the field once, and need the network for the maps.',
     ['lsl/misc/ionosphere/__init__.py', 'lsl/misc/ionosphere/_utils.py', 'lsl/misc/ionosphere/_igs.py', 'lsl/misc/ionosphere/_ustec.py', 'lsl/misc/ionosphere/_glotec.py'], [('field', 'get_magnetic_field, compute_magnetic_declination, compute_magnetic_inclination'), ('maps', 'get_tec_value'), ('geometry', 'get_ionospheric_pierce_point')],
     'differential monitor (own harmonic synthesis, ray tracing, map interpolation) with maps served over loopback by a faulty server', 'Latitudes within 89.9 degrees; elevations above 0.5 degrees; places within the maps; field to 0.02 nT, pierce points to 20 m.  The FTP transport of CDDIS is not exercised.',
     ['lsl.misc.ionosphere'])

prop('C34', 'Typed values, messages, progress and logs mean what they say',
     'Every documented way to type a number, frequency, wavelength, range, date, time, angle, or list of integers, baselines or hosts on the command line gives that value (in Hz, m, MJD, MPM, ...; ranges in order and inclusive), and anything else is refused with an ArgumentTypeError.  Color markup colors exactly the text '
     'it encloses, nested or not, and changes no other character.  Progress bars keep their width, count and estimate, and are full only when done; a busy indicator prints nothing after it was stopped and ends with the outcome.  Log messages reach every sink that is configured for them, and no other, exactly once, whole and in order, '
     'also from several threads.  Each module can be imported by itself and holds the names it exports.',
     ['inputs', 'schedules', 'histories'], 'all texts, markup, counts, log configurations and modules',
     'The tests parse a few strings of each kind, and only run the displays once.',
     ['lsl/misc/parser.py', 'lsl/common/color.py', 'lsl/common/progress.py', 'lsl/common/busy.py', 'lsl/logger.py'], [('parsers', 'lsl.misc.parser'), ('displays', 'colorfy, uncolorfy, ProgressBar, ProgressBarPlus, DownloadBar, BusyIndicator, BusyIndicatorPlus'), ('logging', 'LSL_LOGGER, enable_file_logging, add_filter, ...')],
     'round-trip monitor over generated text, trace monitor of what displays print and of every log sink', 'Progress from 0 to the maximum; texts without braces inside color markup; the logger GUI is not exercised.',
     ['lsl.misc.parser', 'lsl.common.color', 'lsl.common.progress', 'lsl.common.busy', 'lsl.logger'])
