"""Writes properties.jsonl (kept as a program so the entries stay readable)."""
import json
import os

P = []
PKG = "deltares_wave_toolbox/"
SER, SPE = PKG + "series.py", PKG + "spectrum.py"
CS, CT = PKG + "cores/core_spectral.py", PKG + "cores/core_time.py"
CW, CD, CE = PKG + "cores/core_wavefunctions.py", PKG + "cores/core_wave_decomposition.py", PKG + "cores/core_engine.py"
CDI = PKG + "cores/core_dispersion.py"


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


p(
    "C01",
    "A seeded wave realisation depends only on its arguments and its seed",
    "Making a surface elevation realisation of a spectrum with an explicit seed (zero or larger) gives the same time axis and values, bit for bit, whenever it is asked for: whatever was drawn, seeded, synthesised, plotted or analysed before, by whichever thread and in whatever interleaving, after failed or interrupted calls, on whatever date or machine entropy. Two different seeds give realisations with different phases.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "All histories of toolbox calls and of draws and reseeding by the program itself, all interleavings of up to four clients, failures at any point, any state of the global generator, clock and entropy source.",
    "The tests synthesise with one seed in a fresh process, one call at a time, and compare statistics of the result; nothing is drawn, seeded, interrupted or run next to it.",
    [CS],
    [("own generator for seed >= 0", CS + ":spectrum2timeseries"), ("the Series form", CS + ":spectrum2timeseries_object")],
    ["return value of spectrum2timeseries and spectrum2timeseries_object"],
)
p(
    "C02",
    "A seeded realisation leaves the shared random generator untouched",
    "Making a realisation with an explicit seed never reseeds or advances numpy's or Python's global random generator, whether the call succeeds, is refused, is interrupted or runs next to other threads. So the program's own random draws and every later unseeded realisation are the ones it would have got without the call.",
    ["histories", "schedules", "crash_points", "fault_sequences"],
    "All programs that mix seeded syntheses (good, refused, interrupted at any line, out of memory) with draws of their own and unseeded realisations, from one or more threads.",
    "No test draws random numbers around a synthesis, and none interrupts one.",
    [CS, SPE],
    [("own generator for seed >= 0", CS + ":spectrum2timeseries"), ("unseeded path", SPE + ":Spectrum.create_series")],
    ["state and draws of numpy.random and random before, during and after calls"],
    [("numpy.random global state", "shared by the whole program", "numpy")],
)
p(
    "C03",
    "Unseeded realisations are always fresh",
    "Every realisation made without a seed (seed omitted or -1, or through the Spectrum object) has new random phases: uniform over the circle, different at every frequency, and shared with no earlier, later or concurrent realisation in the program, also when seeded ones are made in between or calls fail. They come from numpy's global generator and nothing else, so a program that seeds that generator repeats its realisations exactly.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "All programs of seeded and unseeded realisations, program draws and failing calls, from one or more threads; any clock and entropy.",
    "The tests make one unseeded realisation at most and look at its length or energy; repeats across calls, threads and seeds are never compared.",
    [CS, SPE],
    [("draw of the phases", CS + ":spectrum2timeseries"), ("default seed", CS + ":spectrum2timeseries_object"), ("object form", SPE + ":Spectrum.create_series")],
    ["phases of the Fourier components of the returned realisation"],
)
p(
    "C04",
    "Every realisation carries exactly its target spectrum, whatever is drawn",
    "Whatever numbers the random generator gives, a realisation has the time axis tInit, tInit+dt, ... up to the first point at or past tEnd, finite real values, and at every frequency of that axis below Nyquist exactly the amplitude sqrt(2 S df) of the target density, interpolated linearly and zero outside the given frequencies; an axis with an even number of points has zero mean. No draw, seed, earlier realisation or concurrent client changes the amplitudes: only the phases are random.",
    ["inputs", "schedules", "histories"],
    "All random draws, including constant, extreme and patterned ones injected at the generator; generated spectra, given as row, column or list, and time axes; several realisations in sequence or interleaved.",
    "The tests check Hm0 of one JONSWAP case to a loose tolerance with the draws of one seed; amplitudes per frequency and other draws are not looked at.",
    [CS, SPE],
    [("amplitudes and phases", CS + ":spectrum2timeseries"), ("inverse transform", CS + ":freq2time"), ("object form", SPE + ":Spectrum.create_series")],
    ["returned time axis and elevation, decomposed independently"],
)
p(
    "C05",
    "Asking about waves never reorders or loses them",
    "Whatever is asked of a Series or WaveHeights object (heights, exceedance values, highest waves, plots, text form, refused questions), its waves keep their order and each height keeps its own period; every answer is the one a fresh object would give. Only an explicit sort orders the waves, by descending height, keeping the pairs together.",
    ["histories", "inputs"],
    "All sequences of queries, plots, refused questions and sorts on one or more objects, including equal heights, wave records of one or no wave and shared source arrays.",
    "Each test builds an object and asks one question; the second question on the same object, or a plot before it, is never asked.",
    [SER, CT],
    [("queries on sorted copies", SER + ":WaveHeights"), ("explicit sort", SER + ":WaveHeights.sort"), ("ordering", CT + ":sort_wave_params")],
    ["hwave and twave of the object, answers of the get_* and highest_waves methods, plots"],
    [("hwave, twave", "heights and periods in order of occurrence until sort()", SER + ":WaveHeights.__init__")],
)
p(
    "C06",
    "A spectral parameter depends only on the densities and limits asked for",
    "Every parameter of a Spectrum (wave heights, periods, steepnesses, their HF and LF variants) is a function of the object's frequencies and densities and of the arguments of that very call, not of what was asked, plotted, refused or synthesised before, with which limits, or in which order. After a call the object's attribute for that parameter holds the value the call returned.",
    ["histories", "inputs"],
    "All sequences of parameter queries with and without limits, plots, realisations and refused queries on one or more spectra.",
    "Each parameter is tested once per fresh object, mostly without limits; steepness and HF/LF values that build on earlier answers are only ever asked first.",
    [SPE, CW],
    [("limits of the call", SPE + ":Spectrum._set_flim"), ("parameters", CW + ":compute_spectrum_params"), ("composed parameters", SPE + ":Spectrum.get_s0p, get_smm10, get_Hm0_HF")],
    ["return values of the get_* methods and the attributes they fill"],
    [("Hm0, Tp, Tmm10, ...", "last computed value of each parameter", SPE + ":Spectrum")],
)
p(
    "C07",
    "Threads may share one wave record and get the answers they would get alone",
    "When several threads query the same Series or WaveHeights object at the same time (wave statistics, exceedance, crossings, spectra, filtering, skewness, Fourier components), each answer is exactly the answer of the same question asked alone, and the object's data are unchanged afterwards; so it is when different objects of the same size are queried at the same time. This holds in every interleaving.",
    ["schedules", "histories"],
    "All interleavings, at the level of executed bytecode lines and calls, of two to four clients with generated queries on one to three shared objects.",
    "The tests are single threaded.",
    [SER, CT, CS],
    [("queries that write nothing to the object", SER + ":WaveHeights, Series")],
    ["answers per thread, object data at the end"],
)
p(
    "C08",
    "Threads may share one spectrum and get the answers they would get alone",
    "When several threads ask parameters or seeded realisations of the same Spectrum object at the same time, with the same or with different limits, each gets exactly the value its own call would give alone, in every interleaving, also when the spectra are different ones of the same size. The object's frequencies and densities are unchanged afterwards.",
    ["schedules", "histories"],
    "All interleavings of two to four clients with generated queries and limits on one to three shared spectra.",
    "The tests are single threaded; the attribute a getter fills is a shared variable they never race on.",
    [SPE, CW],
    [("getters return their own local value", SPE + ":Spectrum.get_*")],
    ["return values per thread"],
    [("Hm0, Tp, Tmm10, ...", "written by every getter", SPE + ":Spectrum")],
)
p(
    "C09",
    "A call that fails leaves no trace",
    "A call on an object or a core function that fails, because it is interrupted at any point, runs out of memory, meets a warning turned into an error or is refused for its arguments, leaves objects, module state and arguments so that every later call, including the same one again, behaves as if the failing call had never been made. A refused call is refused every time.",
    ["crash_points", "fault_sequences", "histories"],
    "Interrupts at every reachable line, allocation failures at every allocating call, warnings as errors, bad arguments, in generated histories on one or more objects, alone or next to another client.",
    "The tests check that bad input raises, on an object that is then thrown away; nothing is interrupted, and nothing is called after a failure.",
    [SER, SPE, CT, CS, CW, CE],
    [("results computed before they are stored", SER + ":WaveHeights, Series"), ("input checks first", CE)],
    ["answers of all later calls, object data, compared with a history without the failing call"],
)
p(
    "C10",
    "The caller's arrays are never written to",
    "No constructor, method or core function changes an array, list or object that was passed to it, not in the result, not temporarily while it runs, not when it fails or is interrupted half way. Read-only and strided arrays and equivalent lists are therefore as good as ordinary arrays and give the same answers.",
    ["inputs", "crash_points", "fault_sequences", "schedules"],
    "All public core functions, constructors and queries with generated arguments, writable, read-only, strided or as lists; interrupts at any line; a second client reading the same arrays.",
    "No test compares its inputs before and after, passes read-only data, or looks at them during a call.",
    [SER, SPE, CT, CS, CW, CD, CE],
    [("work on copies", CS), ("sorting out of place", CT + ":sort_wave_params"), ("copying constructors", SER + ":Series.__init__, " + SPE + ":Spectrum.__init__")],
    ["bytes of all arguments at every step, result for read-only inputs"],
)
p(
    "C11",
    "An object owns its data",
    "Series, WaveHeights and Spectrum objects answer for the data they were made from: overwriting the arrays given to the constructor, reusing them as buffers for the next record, or overwriting arrays the object returned does not change any later answer of that or another object. Two objects made from the same arrays do not influence each other.",
    ["histories", "schedules"],
    "All sequences of constructions, overwriting of source buffers and of returned arrays, queries, sorts and derived objects.",
    "Tests never modify arrays after building an object from them.",
    [SER, SPE],
    [("copying constructors", SER + ":WaveHeights.__init__, Series.__init__, " + SPE + ":Spectrum.__init__"), ("results in new arrays", SER + ":Series.get_crossing, get_fourier_comp")],
    ["answers after the arrays were overwritten"],
)
p(
    "C12",
    "Each plot is its own new figure and touches no other",
    "Every plot method returns a new, open figure and axes of its own, which is the current figure afterwards, and which shows the data of that object: the series, spectrum, wave heights or distribution asked for, with the theoretical lines (Rayleigh, Battjes-Groenendijk), periods and scales that belong to it. Nothing done later through the toolbox (other plots, queries, sorts, other threads) draws in that figure, and no plot draws in, closes, clears or resizes a figure of the program or of an earlier plot.",
    ["histories", "schedules"],
    "All sequences and interleavings of plots of several objects, with figures the program itself opens, makes current, draws in and closes in between.",
    "The tests call each plot once, if at all, and do not look at the figure or at others.",
    [SER, SPE, CE],
    [("figure made and returned together", CE + ":new_figure"), ("plots", SER + ":plot*, " + SPE + ":Spectrum.plot")],
    ["the returned figure, pyplot's list of figures and current figure, content of every figure"],
    [("pyplot's current figure", "shared by the whole program", "matplotlib")],
)
p(
    "C13",
    "A plot that returns has saved exactly that plot, or says it could not",
    "If a plot call with a savepath returns, the file at that path is complete and shows exactly the returned figure, also when a file was there before, other plots are made at the same time or other figures are open; when the disk fails (full, missing or forbidden directory, write, open or close error) the call raises. No other file is created, changed or removed, and the same call works once the disk does.",
    ["fault_sequences", "schedules", "configurations", "histories"],
    "All plots with savepath in generated directories and formats, disk faults at every open, write, flush and close, short writes, interleaved clients saving to different files.",
    "The tests save one figure to a healthy disk, if at all, and check at most that the file exists.",
    [SER, SPE, CE],
    [("fig.savefig(savepath)", SER + ":plot*, " + SPE + ":Spectrum.plot")],
    ["bytes on the simulated disk, pixels of the file and of the returned figure, exceptions"],
)
p(
    "C14",
    "The toolbox leaves the settings of the program as they are",
    "No operation, whether it succeeds, is refused or fails, changes settings the program shares with the toolbox: numpy error handling and print options, warning filters, matplotlib parameters, style, backend and interactive mode, working directory, environment, locale, recursion limit, signal handlers, standard streams and logging. Only an unseeded realisation advances the global random generator.",
    ["histories", "fault_sequences", "configurations"],
    "All operations in programs with generated settings of their own, with allocation failures, disk faults and refused calls.",
    "Tests run each function under default settings and compare only results.",
    [SER, SPE, CS, CW, CD, CT, CE],
    [("no global settings written", PKG)],
    ["process settings before and after every operation"],
)
p(
    "C15",
    "A plot that fails leaves no figure behind",
    "When a plot method fails, at whatever point of its work (limits or arguments it cannot use, disk error, out of memory), the open figures, their content and the current figure are as they were before the call. A program that retries plots does not accumulate open figures.",
    ["crash_points", "fault_sequences", "histories"],
    "All plots with a failing allocation at any call, disk faults at any operation, impossible paths and arguments, among figures of the program and earlier plots, alone or next to other clients.",
    "No test makes a plot fail.",
    [SER, SPE, CE],
    [("figure closed on failure", CE + ":new_figure")],
    ["pyplot's list of figures and current figure after the failing call"],
)
p(
    "C16",
    "Results depend on the values passed, not on identity, history or time",
    "The analysis functions and constructors give the same result for the same argument values every time: when an input buffer is refilled with other values between calls, when earlier inputs or results were overwritten or freed, when calls with other values or sizes are interleaved, at any date and with any entropy. A result once returned is never changed by a later call.",
    ["histories", "schedules", "configurations"],
    "All sequences and interleavings of core function calls and constructions on shared and refilled buffers (same array object, new values), with clock jumps.",
    "Tests call each function with constants; two calls on one buffer with different contents do not occur.",
    [CS, CT, CW, CD, CDI, CE],
    [("functions without state", PKG + "cores")],
    ["results compared with the same call alone in a new process"],
)
p(
    "C17",
    "Wave decomposition uses complete, aligned gauge records or refuses",
    "Splitting gauge Series into incident and reflected waves accepts only gauges that share one time axis, and raises when a record is truncated, lost, out of step in time (by half a step or more), sampled at another rate, drifting by a step or more, or when two gauges stand at the same place. For complete records of an incident and a reflected wave field, with any phases, weights, detection limit, places (in increasing order) and number of gauges, it returns the incident and reflected waves at the first gauge for every frequency the gauges can separate.",
    ["fault_sequences", "inputs"],
    "Generated wave fields, depths, gauge arrays and weights; records damaged as loggers damage them: cut short, started late, drifted clock, other rate, dropped or doubled gauge; time stamps with rounding jitter are not damage.",
    "The tests decompose one synthetic record of perfectly aligned gauges.",
    [CD, CDI],
    [("checks on the gauges", CD + ":decompose_linear_ZS_series"), ("least squares separation", CD + ":decompose_linear_ZS"), ("wave numbers", CDI + ":disper")],
    ["returned incident and reflected Series, or the exception"],
)
p(
    "C18",
    "Objects survive copying, pickling and a restart of the process",
    "A Series, WaveHeights or Spectrum object copied, deep-copied or pickled at any moment of its life, and restored in the same or in a new process after a crash, holds the same data and continues with exactly the answers the original would have given. Later operations on a deep copy or restored object and on the original do not influence each other.",
    ["crash_points", "histories"],
    "Generated histories cut at any operation boundary; the object checkpointed, the process lost, the object restored in a fresh interpreter or fork; several objects, with shared source data, sorted or not.",
    "No test copies or pickles an object.",
    [SER, SPE],
    [("plain attributes only", SER + ":Series, WaveHeights, " + SPE + ":Spectrum")],
    ["answers after restoring compared with the uninterrupted history"],
)

p(
    "C19",
    "A realisation analysed by the toolbox shows the spectrum it was made from",
    "A realisation of a spectrum, with any seed or draws, analysed by the toolbox shows at every frequency below Nyquist the density it was made from, in its raw or band averaged spectrum and in its Fourier components; these conserve its variance, and Welch spectra are the averages of its modified periodograms. Bands cut at any frequencies keep exactly the components inside them and add up to the record, transforming to components and back returns it, and its coherence with another record lies in 0 to 1 and does not depend on their order, whatever else was drawn, analysed, failed or runs at the same time.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "Generated spectra, time axes (even and odd lengths, any start), seeds and injected draws; chains of syntheses, filters, transforms and analyses in any order, where a result is the input of the next, from one or several interleaved clients with failing calls in between.",
    "The tests check each step on one record against a stored number; that the steps of the chain agree with each other for every length, resolution and band is never tested.",
    [CS, SER, SPE],
    [("synthesis", CS + ":spectrum2timeseries"), ("transforms", CS + ":time2freq, time2freq_nyquist, unfold_spectrum, freq2time"), ("spectra", CS + ":compute_spectrum_time_series, compute_spectrum_freq_series, frequency_averaging, compute_spectrum_welch_wrapper"), ("bands", CS + ":applybandfilter, bandpassfilter"), ("coherence", CS + ":coherence"), ("methods", SER + ":Series.get_spectrum, get_spectrum_raw, get_fourier_comp, get_bandpassfilter")],
    ["returned realisations, spectra, components and filtered records"],
)
p(
    "C20",
    "Individual waves and their statistics survive what sensors do to a record",
    "Whatever a sensor does to a record (quantising, clipping, sticking, losing, spiking, drifting, dying, repeating), the waves reported are those between its successive zero crossings: crossings interpolated linearly and in order, each period the time between two of them, each height the range of the samples between them, each crest and trough a sample of that wave. Their statistics are those of the ordered heights (mean of the highest fraction, exceeded by a percentage, root mean square, maximum), and zero, not an error, for a record without waves. Records and wave heights may be whole numbers of any width, as converters deliver them.",
    ["inputs", "fault_sequences", "histories", "schedules"],
    "Generated records damaged by up to three sensor faults, with flat parts, samples of exactly zero, equal heights, one wave or none, in histories with sorting, renewed buffers and failing calls, or with interleaved clients; objects and core functions.",
    "The tests take one smooth and one random record; ties, plateaus, samples on the level and records without waves do not occur.",
    [CT, SER],
    [("crossings and waves", CT + ":determine_zero_crossing, determine_params_individual_waves"), ("statistics", CT + ":sort_wave_params, highest_waves_params, exceedance_wave_height"), ("methods", SER + ":WaveHeights, Series.get_crossing")],
    ["crossings, heights, periods, crests, troughs and statistics returned"],
)
p(
    "C21",
    "Uneven or out of order time axes are refused, complete ones accepted",
    "A record, spectrum or set of gauges whose axis has a lost, repeated or out of order sample, a jump, a change of rate or a stopped clock is refused, wherever in the axis and however long it is: by Series, and with steps that are off by more than 5 percent by Spectrum, the Fourier, band filter and spectrum functions, moments and decomposition. An even axis is accepted whenever its clock starts (also at seconds since 1970) and gives the answers it would give starting at zero, in whole numbers of any width as in floating point.",
    ["fault_sequences", "inputs", "histories", "schedules"],
    "Axes damaged at any place by generated logger faults and complete ones with any start and step, built, analysed, damaged and repaired in histories and by interleaved clients, next to failing calls.",
    "The tests offer one axis with a single wrong step, starting at zero.",
    [CE, SER, SPE, CS, CW, CD],
    [("even step check", CE + ":monotonic_increasing_constant_step"), ("constructors", SER + ":Series.__init__, " + SPE + ":Spectrum.__init__")],
    ["exceptions, and answers for complete records"],
)
p(
    "C22",
    "Spectral parameters follow from the moments of the spectrum as measured",
    "Wave heights, periods and steepnesses of a spectrum, whatever disturbed it, are Hm0 = 4 sqrt(m0), Tm-1,0 = m-1/m0, Tm01 = m0/m1, Tm02 = sqrt(m0/m2), Tp at the last bin of maximum density inside the limits, Tps at the vertex of the parabola through the peak and its neighbours, TpD = m0/m1 between the first and the last bin of at least 0.64 of the maximum density, s = 2 pi Hm0 / (g T^2) and the HF and LF parts split at 0.45/Tm-1,0, with moments integrated by Simpson's rule over the bins nearest to the limits and an f^-5 tail above the axis when the upper limit lies there; a single limit keeps to it. A spectrum without waves has no parameters (NaN, for Tps -999), and a coarser one holds the means of bands of whole bins. JONSWAP and Pierson-Moskowitz spectra have the requested shape, peak and Hm0, and frequencies and densities may be whole numbers of any width.",
    ["inputs", "fault_sequences", "histories", "schedules"],
    "Theoretical and measured densities with noise, gaps, ties, flat, zero and single peaks, any even axis, limits on and off the bins, at infinity and outside; asked in any order, of objects and core functions, between failing calls and by interleaved clients.",
    "The tests ask a few spectra with smooth single peaks for parameters without limits.",
    [CW, SPE],
    [("moments", CW + ":compute_moment"), ("parameters", CW + ":compute_spectrum_params, compute_tps"), ("theoretical spectra", CW + ":create_spectrum_jonswap, create_spectrum_piersonmoskowitz"), ("methods", SPE + ":Spectrum.get_*")],
    ["returned parameters and spectra"],
)
p(
    "C23",
    "Iterative solutions are reached, and solve their equation",
    "The wave number returned for a frequency w and depth h satisfies w^2 = g k tanh(k h), or the deep (h infinite) or shallow (h negative) relation asked for, with the sign of w, for one frequency, a list or an array, whole numbers of any width included (waves with w^2 h/g under 1e-8 apart). The Battjes-Groenendijk distribution ends its iteration at the transition that conserves the root mean square height, for every wave height, depth, slope and tolerance for which the distribution is defined, and says when it is not; each call ends within a bounded number of steps, also after failed calls and next to other threads.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "Generated and extreme frequencies, depths, gravity, wave heights, slopes, numbers of waves and tolerances down to 1e-10, in histories with interrupts, failing allocations, warnings as errors and clock jumps, or by interleaved clients.",
    "The tests compute a handful of wave numbers and one distribution; termination and accuracy elsewhere are assumed.",
    [CDI, CW],
    [("Newton approximation", CDI + ":disper"), ("iteration on the energy of the distribution", CW + ":compute_BattjesGroenendijk_wave_height_distribution")],
    ["returned wave numbers, heights and exceedance; simulated steps per call"],
)
p(
    "C24",
    "Coherence tells related waves from unrelated ones",
    "The coherence of two records is, per band, the squared magnitude of the averaged cross spectrum over the product of the averaged variances: between 0 and 1, the same in either order, 1 for a record and any multiple of it in every band that carries waves, and for realisations with independent phases about 1/M over bands of M components. Neither the order of the calls, nor other draws, failures or clients change it.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "Pairs of realisations with seeded, global or the same draws, copies with gains, shifts, mixtures and sensor faults, any band width, in either order; between draws, interrupts, failing allocations and clock jumps, or by interleaved clients.",
    "The tests compare a record with itself, for which a coherence that ignores the phases is 1 too.",
    [CS],
    [("coherence", CS + ":coherence"), ("bands", CS + ":frequency_averaging")],
    ["returned bands and coherence"],
)

p(
    "C25",
    "What does not belong together is refused, wherever it comes",
    "Two channels of which one lost, gained or repeated samples (at either end, inside, all but one, all of them), several channels where one is expected, gauges without their distance, weight or record, out of order or with weights outside 0 to 1, unsorted wave heights, unknown types of crossing and fractions or percentages out of range raise an error instead of an answer: from Series and Spectrum, the Fourier, spectrum, band filter and synthesis functions, moments, parameters, Tps and TpD, zero crossings, individual, sorted and highest waves, exceedance and decomposition, and from methods of objects that lost samples of one channel after they were analysed. What was answered before, failures and other clients make no difference, and complete records next to them are accepted and answered as if the refused ones had never come.",
    ["fault_sequences", "inputs", "histories", "schedules"],
    "Every kind of loss in either channel of generated records, sorted waves, spectra, components and gauges, options, fractions and weights just out of range; before, after and between the complete ones, on objects in use, with interrupts and failing allocations, or by interleaved clients.",
    "The tests offer no channels of different lengths to most functions, and none after a complete record.",
    [CE, CS, CT, CW, CD, SER, SPE],
    [("input checks", CS + ":time2freq, " + CT + ":determine_zero_crossing, highest_waves_params, " + CW + ":compute_moment"), ("constructors", SER + ":Series.__init__, " + SPE + ":Spectrum.__init__")],
    ["exceptions, and answers for complete records"],
)

p(
    "C26",
    "Mean, variance, extremes, skewness and asymmetry are those of the samples",
    "Whatever a sensor did to a record, the mean, variance, largest and smallest value a Series reports are those of its samples, its skewness is the third moment about the mean over the variance to the power 3/2, and its asymmetry the same of the Hilbert transform of the samples. They are so for records far from zero, in any unit and in whole numbers of any width, for filtered and derived records, whatever was asked, sorted, interrupted or refilled before and whatever other threads ask at the same time.",
    ["inputs", "fault_sequences", "histories", "schedules"],
    "Generated records of 12 to 20000 samples damaged by up to three sensor faults, twins of the same length that differ by one fault, and records filtered or derived from them, in histories with other analyses, sorting, renewed buffers, interrupts and failing allocations, or with two or three interleaved clients.",
    "The tests ask one record for each, once.",
    [SER],
    [("moments of the samples", SER + ":Series.get_skewness, Series.get_asymmetry, Series.mean, Series.var, Series.max, Series.min")],
    ["returned values"],
)
p(
    "C27",
    "A program that runs on and on accumulates nothing and does not slow down",
    "When a program does the same kind of work round after round on the toolbox with ever new records, spectra, realisations and figures, the toolbox keeps no more after any number of rounds than it kept after the first ones: inputs, results, objects and closed figures the program gave up are freed, objects that live on and the toolbox's modules do not grow without bound, and no open files, threads or figures are left behind. This includes rounds with refused calls, failed saves, interrupts and failing allocations, and several threads at once. After all those rounds the first questions get the same answers in about as many steps.",
    ["histories", "fault_sequences", "schedules"],
    "Rounds of queries, core calls, decompositions, syntheses, plots saved and closed, refused calls and injected failures, repeated up to 1200 times with new data by one client or two, on objects that live one round or for ever.",
    "Tests ask each thing a few times in a process that ends soon.",
    [SER, SPE, CS, CT, CW, CD, CE],
    [("holds figures only until they are handed over", CE + ":new_figure"), ("objects own copies only", SER + ":Series.__init__"), ("no module state", CS + ":spectrum2timeseries")],
    ["memory that can be reached from the toolbox", "references to given up objects", "open files, threads and figures", "steps of calls"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
