"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state), "mechanism": mechanism,
                          "observe_at": list(observe), "hook_needed": hook}})


def m(name, where):
    return {"name": name, "where": where}


def s(name, meaning, where):
    return {"name": name, "meaning": meaning, "where": where}


prop("C01", "A spectral-response store that says it is current is complete and intact",
     "At every instant, whatever happened to earlier downloads, if the spectral-response directory reports the version this "
     "release of pyspectral requires, then every file of that data release is present in it with exactly the released content. "
     "A data file that was complete before a download attempt is, at every instant afterwards, either that same complete file or the "
     "complete newly released one, never a torn, truncated or missing one. "
     "A download, check or request that returns normally (with downloading enabled) leaves the store current.",
     ["crash_points", "fault_sequences", "histories"],
     "for every process kill, keyboard interrupt, I/O error, full disk, broken, truncated or garbage transfer, at every step of every sequence of downloads",
     "The tests run one fault-free download of a one-file archive into an empty directory; no test interrupts a download, fills the disk, truncates a transfer or updates an existing store.",
     ["pyspectral/utils.py", "pyspectral/rsr_reader.py"],
     [m("download, extraction and installation of the tarball", "pyspectral/utils.py: download_rsr, _download_tarball_and_extract"),
      m("version comparison deciding whether the store is current", "pyspectral/rsr_reader.py: _RSRDataBase.rsr_data_version, rsr_data_version_uptodate")],
     [s("PYSPECTRAL_RSR_VERSION", "version marker stored next to the data files", "rsr_dir on disk")],
     ["contents of rsr_dir", "_RSRDataBase.rsr_data_version_uptodate", "RelativeSpectralResponse(...)"])

prop("C02", "Spectral-response data recovers by itself once faults stop",
     "After any history of crashed, interrupted or failed downloads, as soon as the network and disk work again, the next request for a platform "
     "and instrument of the current data release (with downloading enabled) succeeds at the first attempt, returns the released wavelengths, responses and "
     "central wavelengths, and leaves the store current. No manual clean-up is ever needed, whatever the earlier attempts left behind.",
     ["fault_sequences", "crash_points", "histories"],
     "for every finite prefix of faults and crashes followed by a fault-free suffix; progress bound: one request",
     "No test performs a download after a failed one, so nothing shows that leftovers of a failed attempt cannot block or poison the next.",
     ["pyspectral/rsr_reader.py", "pyspectral/utils.py"],
     [m("download-if-outdated on construction", "pyspectral/rsr_reader.py: RelativeSpectralResponse.__init__, download_rsr_updates"),
      m("download and extraction", "pyspectral/utils.py: _download_tarball_and_extract"),
      m("HDF5 loading", "pyspectral/rsr_reader.py: _load_rsr_info_from_file")],
     [s("rsr_dir", "directory with data files, version marker and leftovers", "configuration")],
     ["RelativeSpectralResponse(...).rsr", "rsr_dir contents"])

prop("C03", "Atmospheric-correction tables are complete when current, per aerosol type",
     "At every instant each aerosol type whose table directory reports the required version holds all of that type's released tables, byte for byte. "
     "A download that is interrupted or fails for one aerosol type never damages, removes or marks as current the tables of any other type, and never leaves a previously complete table torn. "
     "Once faults stop, requesting the correction or the download for a type succeeds at the first attempt and gives the released table's reflectances.",
     ["crash_points", "fault_sequences", "histories"],
     "for every subset of aerosol types, every crash or fault point in a multi-type download, and every later history",
     "The tests download fault-free archives holding only version files; no test covers failure in the middle of a multi-type download or the recovery from it.",
     ["pyspectral/utils.py", "pyspectral/rayleigh.py"],
     [m("per-type download loop", "pyspectral/utils.py: download_luts"),
      m("version check per aerosol type", "pyspectral/rayleigh.py: RayleighConfigBaseClass._get_lutfiles_version"),
      m("download on construction / on request", "pyspectral/rayleigh.py: Rayleigh.__init__, check_and_download")],
     [s("PYSPECTRAL_ATM_CORR_LUT_xx", "version marker per aerosol type", "rayleigh_dir/<type>")],
     ["rayleigh_dir contents", "Rayleigh(...).get_reflectance", "check_and_download"])

prop("C04", "Downloads happen exactly when they are needed and allowed",
     "Spectral-response and table downloads contact the network only for data whose stored version differs from the required one (or on an explicit unconditional "
     "download), exactly once per needed archive and from that archive's address; constructing any object and checking the responses never contacts it when downloading is disabled in the configuration (the explicit table download functions and script do not look at that switch). "
     "A dry run, a disabled download, an up-to-date store and loading from an explicit file name leave the data directories byte-identical and send no request. "
     "After a successful download the data are current and the next use sends no request; after a failed one the next use tries again.",
     ["histories", "configurations", "fault_sequences"],
     "for every sequence of constructions, explicit downloads, dry runs, configuration switches, version changes and failed transfers",
     "The tests look at single calls with the downloader mocked out; the gating over sequences with real version files, failed downloads and configuration changes is not exercised.",
     ["pyspectral/rsr_reader.py", "pyspectral/rayleigh.py", "pyspectral/utils.py", "bin/download_rsr.py", "bin/download_atm_correction_luts.py"],
     [m("version gate for responses", "pyspectral/rsr_reader.py: download_rsr_updates, check_and_download"),
      m("version gate for tables", "pyspectral/rayleigh.py: Rayleigh.__init__, check_and_download"),
      m("dry run", "pyspectral/utils.py: download_rsr, download_luts")],
     [s("download_from_internet", "configuration switch", "pyspectral.yaml")],
     ["HTTP requests sent", "data directory contents"])

prop("C05", "Processes sharing the data directories never see partial data",
     "When several processes use pyspectral with the same data directories at the same time, including first use where each of them finds the data missing or outdated and downloads it, "
     "every process obtains the complete released data and none fails because of another, under every interleaving of their file and network operations. "
     "If some of the processes are killed at arbitrary points the others still succeed, and the store ends complete and current.",
     ["schedules", "crash_points"],
     "for every interleaving of 2 to 4 processes at I/O granularity, with and without kills",
     "All tests run one process; none runs two downloads or a download and a reader against the same directory.",
     ["pyspectral/utils.py", "pyspectral/rsr_reader.py", "pyspectral/rayleigh.py", "pyspectral/config.py"],
     [m("download, extraction and installation", "pyspectral/utils.py: _download_tarball_and_extract"),
      m("readers", "pyspectral/rsr_reader.py: _load_rsr_info_from_file; pyspectral/rayleigh.py: get_reflectance_lut_from_file"),
      m("directory creation", "pyspectral/config.py: get_config; pyspectral/utils.py: download_luts")],
     [], ["RelativeSpectralResponse(...)", "Rayleigh(...).get_reflectance", "store contents"])

prop("C06", "The radiance-table cache survives crashes, full disks and concurrent builders",
     "The on-disk brightness-temperature-to-radiance table used for 3.x micron reflectances may be created by any number of processes at once, and any creation may be killed, interrupted or hit by an I/O error at any point; "
     "every calculator that is successfully created, then or later, uses a complete table equal to the one computed from its band's spectral response. "
     "After faults stop, creating a calculator succeeds at once and never fails because of what an earlier creation left behind or a concurrent one is doing.",
     ["schedules", "crash_points", "fault_sequences"],
     "for every interleaving of several builders and readers and every crash, interrupt or disk fault during creation",
     "The tests create one table in an empty private directory; nothing interrupts or races the creation.",
     ["pyspectral/near_infrared_reflectance.py", "pyspectral/radiance_tb_conversion.py"],
     [m("create-or-read of the table", "pyspectral/near_infrared_reflectance.py: Calculator._set_lut"),
      m("table writer and reader", "pyspectral/radiance_tb_conversion.py: RadTbConverter.make_tb2rad_lut, read_tb2rad_lut")],
     [s("tb2rad_lut_*.npz", "shared table cache", "tb2rad_dir, default the system temporary directory")],
     ["Calculator(...)", "Calculator.reflectance_from_tbs", "files in tb2rad_dir"])

prop("C07", "3.x micron reflectances do not depend on what the table cache saw before",
     "The reflectance, emissive part and radiances a calculator derives are a function of its platform, instrument, band, detector, wave space, of the spectral responses installed when it was created and of the data passed in. "
     "They are the same with an empty cache directory as with one used before by any sequence of calculators for other detectors, bands, instruments, platforms or older spectral-response data, and calculators that are alive at the same time do not change each other's results.",
     ["histories", "configurations"],
     "for every sequence of calculator creations and uses, spectral-response updates, cache removals and configured table file names",
     "Every test creates one calculator on a fresh directory; none reuses a cache across detectors, bands or data updates.",
     ["pyspectral/near_infrared_reflectance.py", "pyspectral/radiance_tb_conversion.py"],
     [m("table file name", "pyspectral/near_infrared_reflectance.py: _set_lutfile, _lutfile_from_config, _lutfile_from_dict"),
      m("create-or-read of the table", "pyspectral/near_infrared_reflectance.py: _set_lut"),
      m("table lookup", "pyspectral/radiance_tb_conversion.py: tb2radiance")],
     [s("tb2rad_lut_*.npz", "table cache keyed by platform, instrument and band", "tb2rad_dir")],
     ["Calculator.reflectance_from_tbs", "Calculator.emissive_part_3x", "Calculator.tb2radiance"])

prop("C08", "Lazy results equal eager results for every chunking and task schedule",
     "Rayleigh/aerosol correction, 3.x micron reflectance and emissive part, radiance-to-temperature conversion and limb-cooling correction give on chunked (dask) input the same values, shape and dtype as on plain arrays, "
     "for every chunking, every order and interleaving in which the tasks run, on workers that only hold read-only or serialised copies, and when tasks are lost and run again. "
     "Building or computing a result never modifies its inputs, and several lazy results can be computed together, repeatedly and after later calls on the same object.",
     ["schedules", "inputs", "fault_sequences"],
     "for every chunking, task order, worker interleaving and set of re-executed tasks",
     "The tests compute a handful of lazy arrays with dask's own thread pool, whose order they do not control, and never re-execute a task or freeze its inputs.",
     ["pyspectral/rayleigh.py", "pyspectral/near_infrared_reflectance.py", "pyspectral/blackbody.py", "pyspectral/atm_correction_ir.py", "pyspectral/utils.py", "pyspectral/radiance_tb_conversion.py"],
     [m("map_blocks wrapping", "pyspectral/utils.py: use_map_blocks_on; pyspectral/rayleigh.py: _map_blocks_or_direct_call"),
      m("table lookup on blocks", "pyspectral/radiance_tb_conversion.py: tb2radiance"),
      m("lazy algebra", "pyspectral/near_infrared_reflectance.py: reflectance_from_tbs; pyspectral/atm_correction_ir.py: viewzen_corr")],
     [], ["computed arrays", "input arrays after the computation"])

prop("C09", "Concurrent threads do not disturb each other's results",
     "Threads that each use their own pyspectral objects, or that share a solar spectrum, a spectral-response set, a radiance converter or a Rayleigh corrector for queries that do not convert it in place, "
     "obtain exactly the results they would obtain running alone, under every interleaving. "
     "(A near-infrared calculator keeps its last result for later requests by design and is only used by one thread at a time.)",
     ["schedules"],
     "for every interleaving of 2 to 3 threads at source-line (and bytecode) granularity",
     "All tests are single threaded.",
     ["pyspectral/solar.py", "pyspectral/rsr_reader.py", "pyspectral/rayleigh.py", "pyspectral/radiance_tb_conversion.py", "pyspectral/near_infrared_reflectance.py", "pyspectral/utils.py", "pyspectral/config.py"],
     [m("per-call temporaries", "pyspectral/solar.py: _band_calculations, interpolate"),
      m("stateless queries", "pyspectral/rayleigh.py: get_reflectance; pyspectral/radiance_tb_conversion.py: tb2radiance; pyspectral/rsr_reader.py: integral")],
     [s("ipol_wavelength, ipol_irradiance", "last interpolated spectrum kept on the object", "SolarIrradianceSpectrum")],
     ["return values of the calls in each thread"])

prop("C10", "Test-support contexts block the network and leave no trace",
     "Inside any nesting of the public testing context managers pyspectral objects work from fake data in the directories given (or temporary ones), read and write no other data directory, and no request leaves the machine; with downloads forbidden every attempted request raises instead. "
     "When the context is left, normally, by an exception raised in the body at any point, or because setting it up failed, the configuration environment variable, the spectral-response loading and the HTTP layer behave exactly as before it was entered and temporary directories are gone.",
     ["histories", "fault_sequences"],
     "for every nesting of the contexts, every operation sequence inside, and every exception or disk fault in set-up, body or tear-down",
     "The tests enter each context once and leave it normally.",
     ["pyspectral/testing.py"],
     [m("configuration override", "pyspectral/testing.py: override_config"),
      m("loader and request patching", "pyspectral/testing.py: mock_rsr_files, forbid_pyspectral_downloads"),
      m("temporary directories", "pyspectral/testing.py: mock_pyspectral_downloads, mock_tb_conversion, mock_rsr, mock_rayleigh")],
     [s("PSP_CONFIG_FILE", "environment variable naming the configuration file", "os.environ")],
     ["os.environ", "HTTP requests", "files on disk", "results after leaving the context"])

prop("C11", "A failing read surfaces as an error, never as altered results",
     "If a spectral-response file, version marker, atmospheric-correction table, radiance table, solar spectrum or configuration file cannot be read completely (I/O error at any read, file vanishing or becoming unreadable between two accesses, or - for the HDF5 and table files, whose format allows it to be noticed - a truncated or emptied file), "
     "the call that needed it either raises or returns exactly the fault-free result; it never returns zeros, defaults, fewer detectors or otherwise different numbers. "
     "The same call made after the fault is gone returns the fault-free result.",
     ["fault_sequences", "inputs"],
     "for every read operation of every file the library consumes and every fault kind on it",
     "The tests only cover a missing table file; no test makes a read fail half-way or truncates a file.",
     ["pyspectral/rsr_reader.py", "pyspectral/rayleigh.py", "pyspectral/radiance_tb_conversion.py", "pyspectral/near_infrared_reflectance.py", "pyspectral/solar.py", "pyspectral/config.py"],
     [m("HDF5 readers and their fallbacks for absent attributes", "pyspectral/rsr_reader.py: _load_rsr_info_from_file, _get_number_of_detectors4bandname, _get_band_*"),
      m("zero correction outside the table's wavelength range", "pyspectral/rayleigh.py: get_reflectance"),
      m("table reader", "pyspectral/radiance_tb_conversion.py: read_tb2rad_lut")],
     [], ["exceptions and return values of constructors and computations"])

prop("C12", "Every object and download obeys the configuration in force when it is made",
     "The configuration (file named by the environment variable, else the built-in one) is consulted afresh for each object created and each download: a switch or edit made before the call is honoured in full - data directories, download permission, table cache location - and a later one does not move the files an existing object uses (only the response of a band that is named in a correction call is looked up afresh in that call). "
     "A configured file that does not exist raises an error instead of silently using another configuration. "
     "Missing data directories are created, also when several processes do so at the same time, and no data directory other than the configured ones is touched.",
     ["histories", "configurations", "schedules"],
     "for every sequence of configuration switches, edits, directory removals and object creations, by one or several processes",
     "Tests override the configuration once per test and never switch it between objects, remove directories, or race their creation.",
     ["pyspectral/config.py", "pyspectral/utils.py", "pyspectral/rsr_reader.py", "pyspectral/rayleigh.py", "pyspectral/near_infrared_reflectance.py"],
     [m("configuration lookup", "pyspectral/config.py: get_config, _get_env_or_builtin_config_path"),
      m("consumers", "pyspectral/utils.py: get_rayleigh_lut_dir, download_rsr; pyspectral/near_infrared_reflectance.py: _set_lutfile")],
     [s("PSP_CONFIG_FILE", "environment variable naming the configuration file", "os.environ")],
     ["rsr_dir, LUT file and table file used by objects", "directories on disk", "HTTP requests"])

prop("C13", "Converted spectral-response files are all-or-nothing and read back as given",
     "After converting raw responses to the internal file format, loading that file, by its name or by platform and instrument, yields the given band names, detectors, wavelengths, responses and central wavelengths. "
     "If the conversion is killed, interrupted, or hit by an I/O error or full disk at any point, the data directory holds under the final file name either the previous complete file or the new complete one (or none if there was none), and concurrent readers see nothing else; conversions running at the same time do not disturb each other.",
     ["crash_points", "fault_sequences", "inputs", "schedules"],
     "for every set of bands and detectors and every crash, interrupt or disk fault during the write",
     "The conversion has no test at all.",
     ["pyspectral/utils.py", "pyspectral/raw_reader.py"],
     [m("HDF5 writer", "pyspectral/utils.py: convert2hdf5, _write_single_detector_data, _write_multidetector_data, _save_wavelengths"),
      m("reader", "pyspectral/rsr_reader.py: _load_rsr_info_from_file")],
     [], ["RelativeSpectralResponse(filename=...)", "output file"])

prop("C14", "A hostile or malformed archive cannot touch anything outside its data directory",
     "Whatever bytes the server sends as a data archive - parent-directory or absolute member names, links leading outside, device nodes, garbage, an error page or an empty body - the download creates, changes and deletes nothing outside the destination directory. "
     "An archive that cannot be read, or holds members or links leading outside or special files, makes the download raise and never makes the store report itself current.",
     ["inputs", "fault_sequences", "histories"],
     "for every archive content and every sequence of hostile and genuine downloads",
     "The tests only extract archives with well-formed plain files.",
     ["pyspectral/utils.py"],
     [m("filtered extraction", "pyspectral/utils.py: _download_tarball_and_extract")],
     [], ["files outside the destination directory", "exceptions", "version reported by the store"])

prop("C15", "Objects are independent and always reflect the data on disk",
     "Converting or editing one object's data, the results it returned or a configuration dictionary never changes what any other object, or one loaded later, holds or computes; and an object created after the files on disk changed shows the changed files. "
     "This holds for spectral responses, radiance converters, 3.x micron calculators, Rayleigh corrections and solar spectra, across any interleaving of loads, in-place conversions to wavenumber, edits, file updates (also of unchanged size and modification time), library downloads and failed operations.",
     ["histories", "fault_sequences"],
     "for every history of loads, conversions, edits, updates and failed loads over several live objects",
     "Each test loads one object and never looks at a second one after mutating the first or after changing the file.",
     ["pyspectral/rsr_reader.py", "pyspectral/radiance_tb_conversion.py", "pyspectral/utils.py", "pyspectral/rayleigh.py", "pyspectral/solar.py"],
     [m("fresh load per object", "pyspectral/rsr_reader.py: RelativeSpectralResponse.__init__"),
      m("in-place conversion", "pyspectral/rsr_reader.py: RelativeSpectralResponse.convert; pyspectral/utils.py: convert2wavenumber")],
     [], ["rsr dictionaries", "converter, corrector and spectrum results"])

# ---- properties that are pure functions of their input: listed, not claimed -------------------
prop("N01", "Planck function and its inverse agree in wavelength and wavenumber space",
     "For every positive wavelength and temperature, inverting the spectral radiance gives back the temperature within floating-point accuracy, and the wavelength and wavenumber forms describe the same radiation.",
     ["inputs"], "all wavelengths and temperatures", "Tests use a handful of temperatures.",
     ["pyspectral/blackbody.py", "pyspectral/radiance_tb_conversion.py"],
     [m("Planck law", "pyspectral/blackbody.py: planck, blackbody_rad2temp, blackbody_wn_rad2temp")])
prop("N02", "SEVIRI regression conversions are mutually inverse",
     "For every tabulated platform and band and every temperature the tabulated radiance and brightness-temperature conversions invert each other.",
     ["inputs"], "all temperatures, bands and platforms in the table", "Tests use one band and a few temperatures.",
     ["pyspectral/radiance_tb_conversion.py"], [m("regression formula", "SeviriRadTbConverter")])
prop("N03", "Band lookup by wavelength finds the band or refuses ambiguity",
     "A wavelength within tolerance of exactly one band's centre gives that band, of none gives nothing, of several gives an error or all of them on request.",
     ["inputs"], "all wavelengths, tolerances and response sets", "Tests use one response set.",
     ["pyspectral/utils.py"], [m("nearest band", "get_bandname_from_wavelength")])
prop("N04", "Band and instrument aliases resolve to the stored names",
     "Every documented alias of a band or instrument resolves to the name the data files use, and an instrument inconsistent with its platform is replaced by the platform's own.",
     ["inputs"], "all aliases", "Tests sample a few names.",
     ["pyspectral/utils.py", "pyspectral/bandnames.py", "pyspectral/rsr_reader.py"], [m("alias tables", "check_and_adjust_instrument_name, RSRDict")])
prop("N05", "Rayleigh correction stays within 0..100 % and fades with cloud and zenith angle",
     "For every geometry the correction lies in 0..100, is zero outside the table's wavelengths, and the cloud and high-zenith reductions never increase it.",
     ["inputs"], "all geometries and red-band reflectances", "Tests use two geometries.",
     ["pyspectral/rayleigh.py"], [m("clipping and reductions", "get_reflectance, reduce_rayleigh_highzenith")])
prop("N06", "In-band solar flux is linear and agrees between wave spaces",
     "The in-band flux scales with the response and agrees between wavelength and wavenumber space within integration error.",
     ["inputs"], "all response functions", "Tests use one MODIS band.",
     ["pyspectral/solar.py"], [m("convolution", "inband_solarflux")])
prop("N07", "Reflectances are masked beyond the terminator and where the input is invalid",
     "The 3.x micron reflectance is undefined for sun angles beyond the limit, invalid input and vanishing solar signal, and defined elsewhere.",
     ["inputs"], "all temperatures and sun angles", "Tests use a few pixels.",
     ["pyspectral/near_infrared_reflectance.py"], [m("masking", "_calculate_r3x")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
