"""Property list: writes properties.jsonl and MANIFEST.json (run from /verif)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, note, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, na=na))


EXO, OE, OP = "exorad/utils/exolib.py", "exorad/models/optics/opticalElement.py", "exorad/models/optics/opticalPath.py"
DL, INS = "exorad/utils/diffuse_light_propagation.py", "exorad/models/instruments/instrument.py"
NOI, NOH, ZOD = "exorad/models/noise.py", "exorad/tasks/noiseHandler.py", "exorad/models/foregrounds/zodiacalForeground.py"
TH, UTL, TL = "exorad/tasks/targetHandler.py", "exorad/utils/util.py", "exorad/models/targetlist.py"
IH, PL = "exorad/tasks/instrumentHandler.py", "exorad/tasks/propagateLight.py"
PHO, SPE, SIG = "exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py", "exorad/models/signal.py"

prop("C01", "Resampling onto a coarser grid averages exactly the samples of each bin",
     "When a sampled spectrum is put on a grid coarser than its own sampling, each output value is the mean of the input samples lying in that bin, bins being delimited by the midpoints between neighbouring grid points (the outermost bins reach a quarter of the end spacing beyond the grid ends). The values do not depend on the order of the samples or of the grid.",
     ["inputs"], "every assignment of sample values (and of grid offsets) on grids of up to 12 samples and 5 bins",
     "the tests resample one flat or one stellar spectrum on fixed grids",
     [EXO], [("rebin", EXO)], "sizes up to 12 samples / 5 bins")
prop("C02", "Resampling onto a finer grid interpolates linearly and adds nothing outside",
     "When a sampled spectrum is put on a grid finer than its own sampling, each output value is the linear interpolation between the two neighbouring samples, and it is zero where the grid leaves the sampled range. Units are carried over, wavelengths in different length units are reconciled, and neither the order of the samples nor that of the grid matters.",
     ["inputs"], "every assignment of sample values and of symbolic sample positions on grids of up to 6 samples and 7 points",
     "tests use fixed monotonic inputs", [EXO], [("rebin", EXO)], "up to 6 samples / 7 grid points")
prop("C03", "Sampled signals always carry the right units, sizes and grid",
     "A spectral signal built from a grid and data is held in its documented units: values in compatible units (table columns included) are converted, bare numbers are taken to be in the documented unit, and incompatible units or mismatched sizes raise an error. Resampling a signal leaves it on the requested grid, in the same unit, with zeros where nothing is known.",
     ["inputs", "configurations"], "every data value, for each unit/kind pair listed, up to 5 samples", "tests cover two unit pairs and one size mismatch",
     [SIG], [("Signal.check_quantities", SIG), ("Signal.check_sizes", SIG), ("Signal.spectral_rebin", SIG)], "up to 5 samples, listed unit pairs")
prop("C04", "Transmission of an optical element follows its description",
     "An optical element's transmission is, in order of preference: the selected column of its table linearly interpolated (zero outside the table), the constant transmission or reflectivity, or 1 if none is given; giving both constants without saying which to use is an error. Whatever the source, it is zero outside the element's own wavelength limits, in whatever length unit limits and tables are expressed.",
     ["inputs", "configurations"], "every transmission in [0,1] and every position of the limits, on 6-point grids and 4-row tables",
     "tests build one or two example elements", [OE, "exorad/models/utils.py"], [("OpticalElement", OE), ("get_wl_col_name", "exorad/models/utils.py")], "6-point grid, 4-row tables")
prop("C05", "Emissivity, temperature, position and solid angle of an optical element",
     "An element's emissivity is its tabulated column interpolated linearly (zero outside), else the given constant, else 1 for a detector box and 0 for anything else; a table without an emissivity column and without a constant is an error. Temperatures and solid angles are converted to kelvin and steradian (bare numbers are already in those units), and only detector boxes and optics boxes are placed off the optical path.",
     ["inputs", "configurations"], "every value in the physical ranges, six element types, 3-row tables", "tests check one default",
     [OE], [("OpticalElement", OE)], "3-row tables, 5-point grid")
prop("C06", "Channel transmission is the product of all elements, common optics first",
     "The total transmission of a channel is, at each wavelength of the detector range, the product of the transmissions of every common and channel element, with the common elements standing before the channel's in the path and elements of the same name all counting. Each element's own transmission is reported unchanged, detector limits may be given in any length unit, and asked for a single wavelength the path covers the whole detector range.",
     ["inputs", "configurations"], "every transmission of up to 3 common and 2 channel elements", "tests compare one example payload",
     [OP, INS], [("OpticalPath.build_transmission_table", OP), ("Instrument.build_optical_path", INS)], "up to 5 elements, 5-point grid")
prop("C07", "Optics self-emission is emissivity times Planck, dimmed by what follows",
     "The radiance an optical element sends to the detector is its emissivity times the black-body radiance at its temperature, multiplied by the transmission of every later element of the path (common elements precede channel elements) but not by its own. Elements without a temperature emit nothing.",
     ["inputs", "configurations"], "every emissivity/transmission of 1..4 elements, temperatures symbolic in [30,400] K for the black body itself", "tests never check a chain",
     [OP, EXO], [("OpticalPath.chain", OP), ("surface_radiance", OP), ("planck", EXO)], "up to 4 elements, 3 wavelengths")
prop("C08", "Diffuse instrument light: solid angle, pixel area and window of each emitter",
     "Without a slit, the counts an emitter puts on a pixel are the band integral of its radiance times quantum efficiency, pixel area, photons per energy and solid angle: the pixel field of view for path elements, pi minus it for optics boxes, pi for detector boxes, or the element's own custom value. The signal is that times the number of pixels in the window, and the instrument totals are the sums over the emitters.",
     ["inputs", "configurations"], "every emissivity, transmission, efficiency and custom solid angle for up to 4 emitters on a photometer", "tests compare total sums of one example payload",
     [OP, DL], [("OpticalPath.compute_signal", OP), ("integrate_light", DL), ("prepare", DL)], "up to 4 emitters, 5-point grid")
prop("C09", "A slit spreads only the light that enters it",
     "In a spectrometer with a slit, light emitted before the slit (foregrounds included, whether or not anything in front is warm) reaches each pixel as the sum over the pixels of the slit image, and a spectral bin collects the pixels inside it times the spatial window, its brightest pixel being their maximum. Light emitted by the slit or behind it is not dispersed: every pixel gets the whole band.",
     ["inputs", "configurations"], "every emissivity/transmission/radiance, slits of 1..3 pixels, both dispersion directions, about 10 pixels and 3 bins", "no test has a slit with known answer",
     [OP, DL, INS], [("convolve_with_slit", DL), ("OpticalPath.chain", OP), ("Instrument.propagate_diffuse_foreground", INS)], "about 10 pixels, 3 bins")
prop("C11", "Photometer star counts, aperture counts and brightest pixel",
     "A photometer's star signal is the collecting area times the band integral of the stellar flux times transmission, quantum efficiency and photons per energy; the star flux is the integral of the spectrum. The aperture signal is that times the aperture correction if given, else the encircled-energy fraction if given, else unchanged, and the brightest pixel gets it times the largest value of the PSF image.",
     ["inputs", "configurations"], "every spectrum, efficiency table, transmission table, area and 2x2 PSF", "tests compare a few example stars",
     [PHO, INS], [("Photometer.propagate_target", PHO), ("Instrument._get_efficiency", INS)], "up to 9-point spectra, 5 to 9-point instrument grids")
prop("C12", "Spectrometer star counts and flux of each spectral bin",
     "In each spectral bin of a spectrometer, the star signal is the collecting area times the integral of flux times transmission, quantum efficiency and photons per energy over the spectrum samples inside the bin (lower edge included, upper excluded), and the flux is the same integral of the spectrum alone. Both are linear in the spectrum and never negative.",
     ["inputs", "configurations"], "every 12-point spectrum and 4-row efficiency table, three bins", "tests compare example stars with loose tolerances",
     [SPE, INS], [("Spectrometer.propagate_target", SPE), ("Instrument._window_function", INS)], "12-point spectra, 3 bins")
prop("C13", "Spectrometer brightest pixel of each bin",
     "The brightest-pixel signal of a spectral bin is the maximum, over the pixels whose wavelength is inside the bin, of the count density resampled on the pixels times the pixel bandwidth times the PSF gain. The gain is the largest PSF column sum over the largest pixel-response column sum, reduced by the Strehl factor when a wavefront error is given.",
     ["inputs", "configurations"], "every spectrum and every 2x2 PSF, three wavelength solutions with about 10 pixels", "tests never check it against a reference",
     [SPE], [("Spectrometer.propagate_target", SPE), ("Spectrometer.builder", SPE)], "about 10 pixels, 3 bins")
prop("C14", "Forced channel edges remove all out-of-band light and are optional",
     "When the payload forces channel wavelength edges, star and foreground light outside the channel's limits contributes nothing, so two sources that agree inside the limits give identical counts; light exactly at a limit belongs to the channel. When the option is false or absent, nothing is cut.",
     ["inputs", "configurations"], "every 8-point spectrum and transmission, photometer and spectrometer", "tests only run with the option on",
     [INS, PHO, SPE], [("Instrument._get_transmission", INS), ("propagate_target", PHO), ("propagate_target", SPE)], "8-point spectra, 5-point grid")
prop("C15", "Foreground light on pixels and windows",
     "The counts of a diffuse foreground on a pixel are the band integral of its radiance times instrument transmission, quantum efficiency, photons per energy, pixel area and pixel field of view, and its signal is that times the window size in pixels. Foregrounds without a transmission do not influence one another, and propagating a foreground does not change it.",
     ["inputs", "configurations"], "every 6-point radiance with 4-row transmission and efficiency tables", "tests compare one example foreground",
     [INS, DL], [("Instrument.propagate_diffuse_foreground", INS), ("integrate_light", DL)], "6-point radiance, 7-point grid")
prop("C16", "Foregrounds filter what lies behind them and dim the star",
     "A foreground's light is multiplied by the transmission of the foregrounds listed after it and not by its own; the star is dimmed by the product of all of them, which is also reported, while the reported star flux is not. Outside its table a custom foreground is dark and fully transparent.",
     ["inputs", "configurations"], "every radiance/transmission table of 1..3 foregrounds, zodiacal light before or after a filter", "tests have at most one filter",
     [INS, "exorad/tasks/foregroundHandler.py", "exorad/models/foregrounds/skyForegrounds.py"],
     [("Instrument.propagate_diffuse_foreground", INS), ("EstimateForeground", "exorad/tasks/foregroundHandler.py"), ("SkyForeground", "exorad/models/foregrounds/skyForegrounds.py")], "up to 3 foregrounds, 4-row tables, 5-point grid")
prop("C17", "Zodiacal light follows its two-blackbody model and coefficient source",
     "The zodiacal radiance is the coefficient times 3.5e-14 B(5500 K) + 3.58e-8 B(270 K) and its transmission is one. The coefficient is that of the map for the pointing when the payload asks for the map, the pointing is known and the map is usable, else the payload factor, else zero. It does not depend on the length unit of the grid.",
     ["inputs", "configurations"], "every coefficient and pointing, map present, absent or malformed", "tests check one example coefficient",
     [ZOD], [("ZodiacalFrg.zodiacal_fit_direction", ZOD), ("ZodiacalFrg.model", ZOD)], "5 wavelengths, 3 map entries")
prop("C18", "The zodiacal map gives the coefficient of the nearest entry",
     "For a pointing (ra, dec), the coefficient used is the one of a map entry whose coordinates are nearest to it, right ascensions being on a circle, for every map content.",
     ["inputs"], "every pointing and every map of up to 4 entries", "tests use one pointing on the shipped map",
     [ZOD], [("ZodiacalFrg.zodiacal_fit_direction", ZOD)], "up to 4 map entries")
prop("C19", "Saturation time and frame time from the brightest pixel",
     "The brightest-pixel count rate of a row is the sum of the brightest-pixel columns of the star, every foreground and the instrument. The saturation time is the well depth over it, and the frame time of all rows of a channel is the imposed one if any, else the allowed well fraction times the shortest saturation time of the channel.",
     ["inputs", "configurations"], "every count rate, well depth and fraction, with or without imposed frame time", "tests compare one example",
     [NOI, NOH], [("EstimateNoise", NOH), ("noise.detector saturation", NOI)], "3 rows, up to 4 contributions")
prop("C20", "Multiaccum gains from the number of non-destructive reads",
     "The number of reads n is the whole number of read intervals in the frame time, at least 2, whatever time unit is used. The read gain is 12(n-1)/(n(n+1)) and the shot gain 6(n^2+1)/(5n(n+1)), and averaging m reads divides the read gain by m and leaves the shot gain alone.",
     ["inputs", "configurations"], "every frame time, read frequency and imposed number of reads", "tests check one reading mode",
     [NOI], [("multiaccum", NOI)], "frame time 0.01..50, frequency 0..20 Hz")
prop("C21", "Noise budget of every row of a channel",
     "Each contribution's shot noise, the dark current noise and the read noise are computed from that row's own counts, window size and frame time with the multiaccum gains and the excess factor NoiseX, in units of counts over one hour; the total noise is their quadrature sum divided by the star counts, and is finite and positive wherever the star has counts.",
     ["inputs", "configurations"], "every count rate, dark current and read noise on up to 3 rows, several contributions", "tests compare totals of one example",
     [NOI, NOH], [("EstimateNoise", NOH), ("add_photon_noise / dark / read noise", NOI)], "3 rows, 3 contributions")
prop("C22", "Custom noise is added in quadrature and only there",
     "A custom noise, constant or tabulated, from the common or the channel section of the payload, appears as its own column and is added in quadrature to the total relative noise of that channel; tables are interpolated in wavelength whatever their units and row order, several noises may come in any order, and without any the total is unchanged.",
     ["inputs", "configurations"], "every constant and 2..3-row table, up to 3 custom noises", "tests cover one constant custom noise",
     [NOI, NOH], [("add_custom_noise", NOI), ("EstimateNoise", NOH)], "3 rows, up to 3 custom noises")
prop("C23", "Channels do not influence one another",
     "The light and the noise of a channel depend only on that channel's own description and detector: whatever other channels are observed with it and in whatever order, its rows of the merged table hold the same star and foreground signals, saturation and frame times and noises, in channel order with one row per bin, and observing leaves the channel's own table as it was.",
     ["inputs", "configurations"], "every signal, dark current, read noise, efficiency and transmission of 1..3 channels in two orders, with or without a custom noise of one of them", "tests only check one example payload",
     [NOH, "exorad/tasks/propagateLight.py", TH], [("EstimateNoise", NOH), ("PropagateTargetLight", PL), ("PropagateForegroundLight", PL), ("PrepareTarget", TH)], "3 channels of up to 2 rows; 2 photometers on 5-point grids")
prop("C29", "Every target is observed as if it were alone",
     "In a target list each target gets the table it would get alone in a fresh session: its own star, sky and noise, whatever the other targets, earlier observations with other foregrounds, or the number of worker threads. A target that cannot be observed is left out without affecting the others, and the channels' own tables are not changed.",
     ["inputs", "configurations", "histories", "schedules"], "every stellar radius, spectrum and sky transmission of 1..3 targets, each failing position, repeated observations, and several completion orders of the workers", "tests observe one short list once",
     [TH, PL, NOH], [("ObserveTargetlist", TH), ("ObserveTarget", TH), ("PrepareTarget", TH)], "up to 3 targets, 2 channels, 5-point spectra")
prop("C36", "Merged channel tables keep every value under its column",
     "Stacking channel tables gives all rows in order with the union of the columns, units reconciled and zero where a table lacks a column. Adding results to a target's table replaces columns of the same name, keeps the others and merges the metadata; neither changes the tables it was given.",
     ["inputs", "configurations"], "every cell value of up to 3 tables of 1..2 rows, an extra column in any of them", "tests never stack tables with different columns or units",
     [UTL, IH, TH], [("vstack_tables", UTL), ("UpdateTargetTable", TH), ("PrepareTarget", TH)], "3 tables, up to 5 rows")

prop("C24", "Spectral bins tile the spectrometer band at the required resolution",
     "The bins of a spectrometer start at the lower wavelength limit, are contiguous and ascending and cover the band: with a target resolution R each bin is its left edge over R wide, with a tabulated R each bin is w/R(w) wide and the last one closes the band, and with none (or native) there is one bin per detector pixel. Centre and bandwidth of each row agree with its edges and each row carries the channel's name; a malformed resolution is refused.",
     ["inputs", "configurations"], "every band in the stated ranges and every resolution 1.5..4, limits in micron or nanometre", "tests build one example spectrometer",
     [SPE], [("Spectrometer.builder / bins", SPE), ("get_wl_bins", SPE)], "up to 10 bins, 3-row resolution tables")
prop("C25", "Wavelength and bandwidth of every spectrometer pixel",
     "The pixels of a spectrometer cover its band at the detector's pixel pitch, and each one's wavelength and bandwidth come from interpolating (and extrapolating) the wavelength solution at its centre and edges. Bandwidths are positive whichever way the dispersion runs, and neither the order of the solution's rows nor the units of limits, solution and pixel size matter; a missing solution is refused.",
     ["inputs", "configurations"], "every band, dispersion, offset and pixel size in the stated ranges", "tests use one solution in one direction",
     [SPE], [("Spectrometer.builder", SPE)], "up to 8 pixels, 2..3-row solutions")
prop("C26", "Band, efficiency and transmission reported in a channel's table",
     "A photometer has one row, whose edges are its limits, with their mean as wavelength and their difference as bandwidth. The reported quantum efficiency and transmission of each row of any channel are the detector's efficiency and the optical path's transmission at the row's wavelength (zero outside the tables), whatever the units and row order of the tables, and the stored optical path holds the tables of every element.",
     ["inputs", "configurations"], "every band and every efficiency and transmission in [0,1]", "tests do not compare the columns with the tables",
     [PHO, SPE, INS], [("Photometer.builder", PHO), ("Instrument.build", INS)], "7-point grids, 3-row tables")
prop("C27", "Extraction window of every spectrometer bin",
     "A bin's window is the product of its spectral width (the pixels between its edges according to the wavelength solution, or the imposed number) and its spatial width (twice the encircled-energy radius, 1.22 by default, times F-number and wavelength over the pixel size, scaled if asked, or the imposed number of pixels). Units and direction of the dispersion do not matter and the table reports the same window.",
     ["inputs", "configurations"], "every dispersion, F-number, radius table, scale, imposed width and pixel size in the stated ranges", "tests build one example spectrometer",
     [SPE], [("Spectrometer window size", SPE)], "up to 3 bins, 3-row radius tables")
prop("C28", "Aperture of a photometer in pixels",
     "The aperture of a photometer given by a radius r in units of F lambda covers r^2 Fx Fy lambda^2 pixels areas, and one given by an encircled energy covers the ellipse of the radius at which the channel's own image reaches that energy at the band centre. On an image already sampled on pixels the radius counts pixels; units of limits and pixel size do not matter.",
     ["inputs", "configurations"], "every radius, encircled energy, F-number and pixel size in the stated ranges", "tests build one example photometer",
     [PHO], [("Photometer aperture", PHO)], "scalar formula, 4 unit combinations")
prop("C35", "Target lists deliver every value to its own target",
     "Whichever format a target list comes in, every row becomes one target holding the row's own star (and planet, if listed) values with their units, numbered in list order and named after its planet or star, whatever the order of the columns. A target is found by its star or planet name with or without spaces, dashes and capitals and nothing else is; unknown formats and values without units are refused, and the given table is left as it was.",
     ["inputs", "configurations"], "every cell value of lists of 1..3 targets, several column orders, four formats", "tests load one csv and one in-memory table",
     [TL, "exorad/tasks/loadTargetList.py"], [("BaseTargetList and readers", TL), ("searchTarget", TL)], "3 targets, all formats, file readers replaced by in-memory tables")
prop("C40", "Radius enclosing a given fraction of an image",
     "The aperture radius found for an encircled energy is the one at which the (interpolated) encircled energy of the image reaches it, for every increasing curve, and the search ends for every energy up to 1. The energy within radius r is the fraction of the image's light inside the ellipse of half axes r times the F-numbers times the wavelength around its centre; energies outside (0, 1] are refused.",
     ["inputs"], "every increasing curve of up to 5 radii, every fraction, F-number and wavelength in the stated ranges", "tests never search a radius for an extreme fraction",
     [EXO], [("find_aperture_radius", EXO), ("encircled_energy", EXO)], "up to 5 radii; photometry replaced by an arbitrary value")

prop("C33", "Payload files deliver every value, unit, section and table",
     "Every element of a payload file arrives in the options with its number, flag or text, its unit and attributes, whatever the spacing and comments; repeated sections all arrive in file order and data files as tables or dictionaries of their section. __ConfigPath__ stands for the path of that file or the one given at run time, and unreadable files are refused.",
     ["inputs", "configurations"], "every number written in the file, eight units, spacings and comments, 1..4 repeated sections, each data format", "tests load one example payload",
     ["exorad/tasks/loadOptions.py"], [("LoadOptions", "exorad/tasks/loadOptions.py")], "4 sections, 3-row tables; numbers pass through the XML text as placeholders")
prop("C37", "Stellar spectrum at the telescope from black body, model or file",
     "The spectrum is the surface spectrum scaled by the square of stellar radius over distance: pi times Planck for a black body, the nearest library model in temperature and gravity (none outside the library), or the custom file, whatever the units and order of rows. The luminosity of a model or custom star is 4 pi R^2 times the integrated surface flux, and log g follows from mass and radius in any unit.",
     ["inputs", "configurations"], "every flux of 4..5 samples, radius, distance, mass, temperature and gravity in the stated ranges", "tests build two example stars",
     ["exorad/models/source.py"], [("Star", "exorad/models/source.py"), ("CustomSed", "exorad/models/source.py")], "5 library models, 5-sample spectra, FITS and text readers replaced by in-memory content")
prop("C38", "Loading a star: source chosen, grid, metadata and refusals",
     "Loading a source gives the target the star of the requested kind (black body when nothing else applies), resampled on the logarithmic grid of the working resolution between the limits, which may come in either order and any unit. The target's table keeps its metadata and gains the star's own parameters; a star missing a needed parameter or unit, or without its library, is refused.",
     ["inputs", "configurations"], "every spectrum, radius, distance and temperature in the stated ranges, seven forms of the limits, each missing parameter", "tests load one example star",
     ["exorad/tasks/loadSource.py", "exorad/models/target.py"], [("LoadSource", "exorad/tasks/loadSource.py")], "6-point grid, 5-sample spectra")
prop("C39", "Image of a point source as seen by the pixels",
     "The image seen by a pixel is the file's image summed over the pixel's area, counted in the image's own samples along each axis (edge samples by their fraction): from the file of the given directory tabulated nearest to the wavelength, or interpolated linearly between the two nearest wavelengths (PAOS), or the unit-energy diffraction image without a file. Images already sampled on pixels are used as they are, and the units of wavelength and pixel size do not matter.",
     ["inputs", "configurations"], "every image of up to 3x4 samples, wavelength, pixel size and F-number in the stated ranges, two file formats, directly and through both kinds of channel", "tests check one pixel response",
     [EXO], [("binnedPSF / pixel_based_psf / paosPSF", EXO)], "3x4 images, 3 wavelengths; FITS files replaced by in-memory content")

prop("C32", "Saved payloads, channels and targets read back as they were",
     "Whatever numbers, quantities, texts, arrays, tables and nested sections are saved, the output file gives them back with their units and, for repeated sections, their order, and what was read can be saved again. Channels loaded from a file have the same table and observe star and foregrounds exactly as the built ones (and refuse to be built again), and a saved target has its own table, metadata, star, planet, spectrum and foregrounds.",
     ["inputs", "configurations", "histories"], "every number in the saved structures, every transmission, efficiency, telescope area and spectrum of one or two channels, with or without a slit", "tests save one payload and only look at part of it",
     ["exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py", IH, "exorad/models/target.py", INS], [("HDF5Output", "exorad/output/hdf5/hdf5.py"), ("load / store", "exorad/output/hdf5/util.py"), ("LoadPayload / PreparePayload", IH)], "2 channels, 5-point grids, arrays of 2..4 values; HDF5 library replaced by an in-memory store for symbolic values, real files in replays")
prop("C34", "Tasks take named parameters, fill in defaults and refuse others",
     "A task sees exactly the parameters given in that call and the defaults of the others, whatever was given in earlier calls or to other tasks, and refuses unknown parameters without running. Every channel of a payload is built as the class it asks for, whatever its capitals, under its own name and from its own description; other classes are refused.",
     ["inputs", "configurations", "histories"], "every parameter value, every subset of parameters in sequences of 2..3 calls, five channel classes", "tests call each task once with all its parameters",
     ["exorad/tasks/task.py", IH], [("Task", "exorad/tasks/task.py"), ("BuildChannels / GetChannelList", IH)], "3 parameters, 3 calls, 3 channels")
prop("C41", "The pipeline's output follows from the payload file and the target list",
     "Running the pipeline on a payload file and a target list saves one table per target whose star, optics and foreground counts and total noise are those of the described telescope. Asking for every contribution changes nothing else and the contributions add up to the instrument signal, and observing with the payload kept in the output file gives the same tables, whatever payloads were read before.",
     ["inputs", "configurations"], "every transmission, efficiency, telescope area, emissivity, dark current, read noise, NoiseX and zodiacal factor written in the payload file; photometer and/or spectrometer, two targets", "the test runs the pipeline once and only checks that it ends",
     ["exorad/exorad.py", "exorad/tasks/loadOptions.py", TH, IH, NOH], [("standard_pipeline", "exorad/exorad.py"), ("ObserveTarget", TH), ("PreparePayload", IH)], "2 channels, 2 targets, 5-point grids; HDF5 library replaced by an in-memory store")

prop("C42", "Plots show what was computed and leave it unchanged",
     "The plot of an observed target draws every signal in counts per second, every noise relative to the star signal in the aperture and every channel's band, at the wavelengths of the rows and whatever the sources are called; the efficiency plot draws each channel's transmission, quantum efficiency and their product. Plotting changes neither the tables nor the channels, each observed target gets one file named after it, and the plotting tool plots the targets asked by number, range or name.",
     ["inputs", "configurations"], "every wavelength, signal, noise, efficiency and transmission; several names of sources, units and kinds of table; every number, range or name of targets", "the tests plot one target and check nothing",
     ["exorad/utils/plotter.py", TH, "exorad/utils/util.py"], [("Plotter.plot_table", "exorad/utils/plotter.py"), ("Plotter.plot_efficiency", "exorad/utils/plotter.py"), ("ObserveTargetlist", TH), ("parse_range", "exorad/utils/util.py")],
     "3 rows in 2 channels, 3 stored targets; matplotlib replaced by a recorder of what is drawn")
prop("C43", "A run saves its own results only and leaves its inputs alone",
     "Every option of the command line reaches the pipeline. After a run the output file holds the targets of that run and nothing from what the file contained before or from the run that stored the payload, with the same tables as a run into a new file, with or without plots. Payload, target list and earlier results given as input are never overwritten or deleted.",
     ["histories", "configurations", "inputs"], "every combination of command-line options; every history in which the output file was absent, garbage or left by another run, and the payload a description or a stored run, named like the output or the output itself; every transmission, efficiency, area, dark current and noise written in the payload", "no test runs the tool twice, or from a stored payload",
     ["exorad/exorad.py", IH, "exorad/output/hdf5/hdf5.py"], [("standard_pipeline", "exorad/exorad.py"), ("main", "exorad/exorad.py"), ("PreparePayload", IH), ("HDF5Output", "exorad/output/hdf5/hdf5.py")],
     "two runs, 1 channel, up to 2 targets, up to 8 threads on the command line (runs use one); HDF5 library replaced by an in-memory store, matplotlib by a recorder")

TECH = "symbolic execution of the real Python code (values as Laurent polynomials over symbolic inputs, forking comparisons) with Z3 deciding every branch and assertion; counterexamples replayed on the unmodified code"


def design(here):
    """regenerate the per-property section and the table of planted bugs of DESIGN.md"""
    import glob
    import re
    out = []
    for p in sorted(P, key=lambda p: p["pid"]):
        out.append("### %s %s" % (p["pid"], p["title"]))
        out.append("")
        if p["na"]:
            out += ["Not applicable: " + p["na"], ""]
            continue
        src = open(os.path.join(here, "checks", p["pid"] + ".py")).read()
        out.append(p["statement"])
        out.append("")
        out.append("*Code*: " + ", ".join("%s (`%s`)" % (n, w) for n, w in p["mech"]) + ". *Why tests cannot settle it*: " + p["why"] + ".")
        out.append("")
        docs = dict(re.findall(r'def (\w+)\(c\):\n    """(.*?)"""', src, re.S))
        tail = src[src.index("HARNESSES"):]
        for name, bounds in re.findall(r'H\((\w+), "(.*?)"', tail):
            d = " ".join(docs.get(name, name).split())
            out.append("* `%s`: %s. Bounds: %s." % (name, d, bounds))
        out.append("")
    f = os.path.join(here, "DESIGN.md")
    s = open(f).read()

    def put(s, tag, body):
        return re.sub(r"(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)" % (tag, tag), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)
    s = put(s, "GENERATED", "\n".join(out) + "\n")
    rows = ["| bug | needs | caught by |", "|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), " ".join(d["needs"].split()), d["property"]))
    s = put(s, "SEEDS", "\n".join(rows) + "\n")
    open(f, "w").write(s)


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["pid"]):
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
            assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
            assert p["statement"].count(". ") <= 2, p["pid"]
    man = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
    for p in sorted(P, key=lambda p: p["pid"]):
        if p["na"]:
            man["not_applicable"].append(dict(property=p["pid"], reason=p["na"]))
        else:
            man["checks"].append(dict(
                property=p["pid"], quick_cmd="./check.sh %s quick" % p["pid"], thorough_cmd="./check.sh %s thorough" % p["pid"],
                technique=TECH, level="model_checking",
                level_note="bounded: every value of the symbolic inputs within the stated sizes (%s); real arithmetic, relative tolerance 1e-6" % p["note"]))
    json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    design(here)


if __name__ == "__main__":
    main()
