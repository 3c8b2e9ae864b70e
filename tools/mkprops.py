"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/georinex/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Time window keeps exactly the epochs inside it",
 "Loading a RINEX 2/3 OBS or NAV file with time limits [start, stop], given as datetimes or as ISO strings, leaves out every record before start or after stop and drops no record inside the closed interval (both bounds included) on account of the limits. For navigation files this holds whatever the order of the records in the file; for observation files, whose epochs are chronological, reading may stop at the first epoch after stop. Records inside the limits are treated exactly as they are when no limits are given.",
 ["inputs","configurations"],"every file, every window, every position of a record's time relative to the two bounds, both preallocation modes",
 "tests use four files with one window each; a record exactly on a bound, a non-monotonic file and the combination with other options are sampled once or never",
 ["obs2.py","obs3.py","nav2.py","nav3.py","base.py","utils.py"],
 [("per-record comparison with tlim","rinexsystem2, rinexobs3, rinexnav2, rinexnav3 record loops"),("_tlim normalisation","utils._tlim")],["load(...).time"])
p("C02","Skipping a record never desynchronises the reader",
 "Whatever makes a reader skip a well-formed OBS/NAV record (time limits, decimation interval, satellite-system selection, none of the requested satellites present), it consumes exactly as many lines as when the record is kept, so the following record is read from its first line. The time scan behind gettime consumes the same number of lines per record as the data reader of that format.",
 ["inputs","configurations"],"every record kind, every satellite system, every combination of filters",
 "the tests' filters rarely skip a record in the middle of the part that is kept, and mixed-system skipping is sampled on two files",
 ["obs2.py","obs3.py","nav2.py","nav3.py"],
 [("_skip","obs2._skip, nav2._skip, nav3._skip"),("lines-per-record tables","nav2.Nl, nav3.Nl, obsheader2 Nl_sv")],["load(...)","gettime(...)"])
p("C03","Decimation keeps and drops the right epochs",
 "With a decimation interval, an OBS 2 or OBS 3 read keeps the first epoch it sees, drops an epoch exactly when less than the interval has passed since the reference tick, and otherwise keeps it and advances the tick; a dropped epoch changes nothing in the result. An interval is accepted as seconds (int or float, non-negative) or as a timedelta; a negative number is rejected with ValueError and any other type with TypeError.",
 ["inputs","configurations"],"every epoch spacing relative to the interval (less, equal, greater), first and later epochs, both OBS versions",
 "tests check the number of epochs for two files and three intervals, not which ones, nor the equality case",
 ["obs2.py","obs3.py","common.py"],[("interval test in the record loop","rinexsystem2, rinexobs3"),("check_time_interval","common.check_time_interval")],["load(..., interval=).time"])
p("C04","Satellite-system selection is exact",
 "When the caller selects satellite systems, an OBS 2, OBS 3 or NAV 3 read returns no satellite of any other system and loses no satellite or record of a selected one; without a selection every RINEX satellite system is read. A selection given as one letter means the same as a one-element collection of that letter.",
 ["inputs","configurations"],"every system letter, every selection, every interleaving of systems in the file",
 "tests select G, R, S on one demo file per version",
 ["obs2.py","obs3.py","nav3.py"],[("per-satellite system test","rinexsystem2, rinexnav3, _epoch"),("header field filtering","obsheader3")],["load(..., use=).sv"])
p("C05","Measurement selection returns the requested columns only",
 "With a measurement selection, an OBS read returns exactly the observables of the file whose code starts with one of the requested prefixes, and the values of each returned observable come from that observable's own column of the record, as they would without the selection. A single string means the same as a list holding it, and an empty selection means all measurements.",
 ["inputs","configurations"],"every list of observables in a header, every requested prefix list, with and without indicators",
 "tests select one or two codes on one demo file per version",
 ["obs2.py","obs3.py"],[("name list and column index taken with one mask","obsheader2, obsheader3"),("column stores","rinexsystem2, _epoch")],["load(..., meas=).data_vars"])
p("C06","Every reading option reaches the reader that must honour it",
 "An option given to load, batch_convert or the command-line programs (systems, time limits, indicators, measurements, verbosity, fast/strict, interval, overwrite, output) is delivered unaltered, under its own meaning, to the reader or writer of each file type that supports it; time limits given as text are converted bound by bound. No supported option is dropped, replaced by a default, or exchanged with another on the way.",
 ["inputs","configurations"],"every option value, every file type and version, every entry point",
 "tests pass few options at a time through load and almost none through batch_convert or the command line",
 ["base.py","utils.py","read/__main__.py","rinex2hdf5/__main__.py"],[("argument forwarding","base.load, base.batch_convert, base.rinexobs, base.rinexnav, CLI calls")],["load","batch_convert","python -m georinex.read","python -m georinex.rinex2hdf5"])
p("C07","Files are routed by content version and type, or refused",
 "load, gettime and rinexheader route a file to the reader of its own major RINEX version and its own type (OBS or NAV), and SP3 to the SP3 reader; a version or type with no reader is refused with an exception, and is never parsed as another one nor answered with nothing. Version 1 files, where they are accepted, are read as version 2; version 1 observation files always are. A NetCDF file written by the library is answered with the OBS and NAV data it holds.",
 ["inputs"],"every (version, type) pair a header can declare, including ones not supported",
 "tests hold files of the supported pairs only",
 ["base.py","utils.py","rio.py"],[("dispatch on rinexinfo","base.load, base.rinexobs, base.rinexnav, utils.gettime, utils.rinexheader"),("type detection","rio.rinexinfo")],["load","gettime","rinexheader","rinexinfo"])
p("C08","Nothing is written unless the caller asked for output",
 "No function of the package creates, modifies or deletes a file or directory unless the caller gave an output location; then the only file written is the requested .nc file, or <input name>.nc inside the requested directory. Input files are only ever opened for reading.",
 ["inputs","configurations"],"every entry point, every input container, every option combination",
 "tests look at the expected output only, never for additional writes",
 ["base.py","rio.py","sp3.py","geo.py","utils.py"],[("guarded to_netcdf","base.rinexobs, base.rinexnav, sp3.load_sp3"),("output name","base.load")],["file system"])
p("C09","Existing output data is never destroyed without overwrite",
 "Writing converted OBS, NAV or SP3 data to an output file that already exists, without overwrite, never replaces the file: data of another kind is added beside what is there, and if the file already holds data of that kind (or SP3 output already exists) the call fails with ValueError and leaves the file alone. With overwrite the file is replaced.",
 ["inputs","histories"],"every order of conversions into one output file, every file kind, overwrite on or off",
 "tests write each output file once",
 ["base.py","sp3.py"],[("_groupexists","base._groupexists"),("write mode","base.rinexobs, base.rinexnav, sp3.load_sp3")],["output file","ValueError"])
p("C10","Compression and container never change the text that is parsed",
 "For one RINEX or SP3 text, the reader is given the same character stream whether the file is plain, gzip, bzip2, LZW (.Z) or a zip archive holding that one file, recognised by suffix or by magic number: ASCII with undecodable bytes dropped, universal newlines, positioned at the start, and Hatanaka-decompressed whenever the content is CRINEX and more than the header is wanted. Exactly one stream is delivered per opened file.",
 ["inputs"],"every content (including non-ASCII bytes and CRLF line ends) in every container, Hatanaka-compressed or not",
 "tests hold one clean ASCII file per container and no zip with a CRINEX member, no multi-member zip",
 ["rio.py"],[("opener","rio.opener")],["load","gettime","rinexheader"])
p("C11","A caller's in-memory stream is read from its start and left open",
 "Reading a text stream (io.StringIO) gives a result that does not depend on the stream's current position or on earlier reads of it: every load, header, info and time function starts from the beginning of the text. The stream is never closed by the library, so any sequence of these calls can be made on one stream.",
 ["histories","inputs"],"every sequence of calls on one stream, every initial position",
 "tests run one fixed sequence on two small files",
 ["rio.py","utils.py","obs2.py","obs3.py","nav2.py","nav3.py"],[("seek(0) before the first read","rio.opener, rio.rinexinfo, obsheader2")],["load(StringIO)","rinexheader(StringIO)","gettime(StringIO)"])
p("C12","Every file the library opens is closed again on every path",
 "Every file, archive member, decompression stream or NetCDF dataset the library opens is closed when the call returns or raises, including when parsing fails midway, except a NetCDF dataset that is itself the returned result.",
 ["inputs","fault_sequences"],"every container, every entry point, every point at which parsing can fail",
 "tests neither count descriptors nor fail midway through a file",
 ["rio.py","base.py","geo.py"],[("with statements around every open","rio.opener"),("open_dataset users","rio.rinexinfo, base._groupexists, base.load, geo.get_locations")],["open descriptors after a call"])
p("C13","Results do not depend on hash order, clock, randomness or history",
 "Loading the same content with the same options gives the same result in every process: values, satellites, order of variables and attributes do not depend on set iteration order (hash seed), the clock, random numbers, environment variables or process identity.",
 ["inputs","schedules"],"every hash seed, every time of execution",
 "the tests run under one fixed hash seed",
 ["obs2.py","obs3.py","nav2.py","nav3.py"],[("ordered iteration","rinexobs2 over use, obsheader3 over use, rinexnav3 over satellites")],["load(...)"])
p("C14","Uninitialised memory never reaches a result",
 "Every cell of every array a reader returns was either parsed from the file or set to a defined filler; no value of a returned dataset depends on uninitialised memory, for any pattern of missing records, satellites, velocities or clock rates.",
 ["inputs"],"every file, in particular files that lack some records for some satellite or epoch",
 "uninitialised memory often happens to be zero or NaN, and test files are complete",
 ["sp3.py","obs2.py","obs3.py","nav2.py","nav3.py","keplerian.py"],[("fill after numpy.empty","load_sp3, rinexsystem2, rinexnav2, rinexnav3, obsheader3")],["load(...)"])
p("C15","No hidden state: arguments and module tables stay untouched",
 "No library call changes the collections, datasets, headers or arrays the caller passes in, nor any module-level table or cache; apart from stream positions and requested output files, a call has no effect that a later call could observe.",
 ["histories","inputs"],"every sequence of library calls with shared arguments",
 "each test uses fresh arguments and looks at the result only",
 ["base.py","obs2.py","obs3.py","nav2.py","nav3.py","sp3.py","utils.py","geo.py","keplerian.py","common.py","rio.py"],[("functional style","all readers")],["arguments after the call","module globals after the call"])
p("C16","NAV records are mapped to the named broadcast fields in order",
 "For every satellite system and every accepted number of values in a navigation record, the values are assigned in file order to distinct named fields that follow the broadcast order of the RINEX 2/3 format for that system; only spare fields and the documented optional trailing fields may be left out, and any other number of values is refused. RINEX 2 and RINEX 3 records of one system use the same field names in the same order.",
 ["inputs"],"every system letter times every number of values in a record",
 "test files contain a few of the (system, count) pairs and check few field names",
 ["nav3.py","nav2.py"],[("field tables","nav3._fields, nav2.rinexnav2"),("variant layouts","nav3._sparefields"),("lines per record","Nl tables")],["load(nav).data_vars"])
p("C17","GLONASS and SBAS states are in metres, scaled exactly once",
 "For RINEX 2 GLONASS and for RINEX 3 GLONASS and SBAS navigation data, position, velocity and acceleration components (X, Y, Z, dX, dY, dZ, dX2, dY2, dZ2) are multiplied by exactly 1000 once on the way from the file to the result, for every record including repeated epochs; no other field of any system is scaled.",
 ["inputs"],"every record, every system, repeated epochs of one satellite",
 "tests check one system per version on files without repeated epochs for these systems",
 ["nav2.py","nav3.py"],[("km to m","rinexnav2, rinexnav3")],["load(nav)[X..dZ2]"])
p("C18","Epoch times are decoded from the right columns",
 "Each component (year, month, day, hour, minute, second, fraction) of a record's time is taken from exactly the columns the RINEX or SP3 format gives it, in every OBS, NAV and SP3 record and header time the library decodes. Two-digit years 80-99 mean 1980-1999 and 00-79 mean 2000-2079; an SP3 hour 24, minute 60 or second 60 carries over into the next unit.",
 ["inputs"],"every representable time, including the century pivot, fractional seconds and end-of-day conventions",
 "test files hold times with two-digit years 10-18, whole seconds mostly, and no pivot years",
 ["obs2.py","obs3.py","nav2.py","nav3.py","sp3.py"],[("time parsers","obs2._timeobs, obs2._timehdr, obs3._timeobs, obsheader3, nav2._timenav, nav3._time, sp3.sp3dt")],["load(...).time","gettime"])
p("C19","One bad file does not stop a batch conversion",
 "batch_convert attempts every regular file that matches the pattern: when reading or converting one file fails for a reason that lies in that file or its output (unreadable or unsupported content, damaged archive, requested system absent, output already present), the failure is logged with the file's name and the remaining files are still converted.",
 ["fault_sequences","inputs"],"every kind of error a file can cause, at every position in the list of files",
 "the tests' directory holds no file that fails with anything but ValueError",
 ["base.py"],[("per-file exception handler","base.batch_convert")],["output directory","log"])
p("C20","Input that is not RINEX or SP3 is refused with ValueError",
 "Any text whose first lines are not a valid RINEX, CRINEX or SP3 header (empty, blank, too short, foreign or damaged text) is refused by load, rinexinfo, rinexheader and gettime with ValueError, whatever container or stream it comes in; no other exception type escapes from recognising the first line.",
 ["inputs"],"every text, every container",
 "tests try empty and blank files",
 ["rio.py","utils.py"],[("rinexinfo's error conversion","rio.rinexinfo"),("first_nonblank_line, rinex_version","rio")],["exception type"])
p("C21","Loaded data carries its provenance and survives NetCDF output",
 "Every dataset a RINEX reader returns states the file's RINEX version and its kind (obs or nav) and, when read from a path, the file name; every non-empty OBS dataset also states its time system, and states interval and receiver position whenever the header gives them. No attribute a reader sets has a type NetCDF cannot store (boolean, None, dict).",
 ["inputs","configurations"],"every file, every selection that yields data, every optional header line present or absent",
 "tests read attributes of a few files",
 ["obs2.py","obs3.py","nav2.py","nav3.py","sp3.py"],[("attrs assignments before return","all readers")],["load(...).attrs"])
p("C22","Event records never become observations",
 "A special-event record of an OBS file (epoch flag 2, 3 or 4: moving antenna, new site, header information) contributes no epoch, satellite or value, and neither do the lines that follow it; reading goes on with the next epoch. gettime does not report such records either.",
 ["inputs"],"every epoch flag, every number of following lines, with or without a time in the event line",
 "no test file contains an event record",
 ["obs2.py","obs3.py"],[("epoch flag test","obs2._timeobs, rinexobs3")],["load(obs)","gettime(obs)"])
p("C23","Every satellite system has a defined OBS time system",
 "For a single-system OBS file the time_system attribute is the one the RINEX format defines for that system (G GPS, R GLO, E GAL, J QZS, C BDT, I IRN, S GPS, blank GPS), and for a mixed file it is the one named in the TIME OF FIRST OBS header line. No system letter that the readers accept makes a readable file fail at this step.",
 ["inputs"],"every system letter the format defines",
 "tests cover G/M, E and R headers",
 ["common.py","obs2.py","obs3.py","rio.py"],[("determine_time_system","common.determine_time_system")],["load(obs).attrs['time_system']"])
p("C24","SP3 samples belong to the satellite and epoch their record names",
 "In an SP3 read, the position, clock, velocity and clock rate of a record are stored under the satellite that record names and under the epoch line that precedes it, for any order and any absence of records; every satellite listed in the header appears exactly once, in header order, and every epoch line gives exactly one epoch.",
 ["inputs"],"every order and subset of records, every number of satellites and header continuation lines",
 "test files list all satellites in header order at every epoch",
 ["sp3.py"],[("record stores","load_sp3"),("header satellite list","get_sv")],["load(sp3)"])
p("C25","Every value is filed under its own record's epoch and satellite",
 "In every OBS and NAV reader, a stored value's time and satellite coordinates come from the same record the value was parsed from: on every path on which a record contributes a value it contributes exactly one matching epoch and satellite entry, in every preallocation mode, and a record that is rejected contributes to none of them.",
 ["inputs","configurations"],"every sequence of good, malformed and filtered records, fast and strict mode, with and without filters",
 "tests compare coordinates and values on clean files, in fast mode, with one filter at a time",
 ["obs2.py","obs3.py","nav2.py","nav3.py"],[("parallel accumulators","rinexsystem2 times/data, rinexnav2 and rinexnav3 times/svs/raws, _epoch")],["load(...) coordinates versus values"])
p("C26","Indicators are attached to their own observable, when asked for",
 "When indicators are requested, each loaded OBS observable comes with its own signal-strength values and each loaded phase observable with its own loss-of-lock values, taken from the two characters after that observable's 14-character value; when they are not requested no indicator appears. RINEX 2 signal-strength observables (S...) are the only ones without indicators.",
 ["inputs","configurations"],"every observable code of the format, with and without measurement selection",
 "test files have L1 and L2 phases only",
 ["obs2.py","obs3.py"],[("indicator columns","rinexsystem2, _indicators, _epoch")],["load(..., useindicators=True)"])
p("C27","Missing optional packages are reported or worked around, never crashed on",
 "When an optional package (hatanaka, ncompress, pymap3d, psutil, cartopy) is not installed, the package still imports, everything that does not need it works, and an operation that does need it either leaves the optional result out or raises ImportError naming the need; it never fails with NameError or by using a missing function.",
 ["configurations"],"every subset of the optional packages",
 "the test environment has them all installed",
 ["rio.py","obs2.py","obs3.py","common.py","plots.py","plots_geo.py"],[("try/except ImportError fallbacks","rio, obs2, obs3, common, plots, plots_geo")],["import georinex","load"])
p("C28","gettime decodes the same epochs as the data readers",
 "For every OBS and NAV file gettime reports each epoch the data reader of that format would load without filters: both use the same time decoding and the same acceptance test for a record line, so no record is seen by one and rejected by the other.",
 ["inputs"],"every record line, well formed or not",
 "tests compare the two on a handful of clean files",
 ["obs2.py","obs3.py","nav2.py","nav3.py","utils.py"],[("shared time parsers","obstime2, obstime3, navtime2, navtime3 and their readers")],["gettime(f) versus load(f).time"])
p("C29","Satellite positions follow the broadcast user algorithm",
 "keplerian2ecef computes ECEF coordinates from each broadcast element in the role the GPS/Galileo user algorithm gives it: mean motion, harmonic corrections for latitude, radius and inclination, node rate with Earth rotation, and the rotation to ECEF, with time counted from the ephemeris reference epoch; for GLONASS and SBAS satellites it returns the broadcast coordinates. The solution of Kepler's equation for the eccentric anomaly may be approximate.",
 ["inputs"],"every set of orbital elements",
 "one test vector with a relative tolerance of 1e-4, in which several correction terms are far below the tolerance",
 ["keplerian.py"],[("user algorithm","keplerian.keplerian2ecef")],["keplerian2ecef(...)"])
p("C30","Headers are read up to END OF HEADER and no further",
 "Header reading takes label and content of every header line from their own columns (content 1-60, label 61-80), stops at END OF HEADER so that no data line enters the header and no header line enters the data, keeps the text of repeated OBS header labels, and collects continuation lines of observable lists until the declared number is reached.",
 ["inputs"],"every header, any number and order of header lines, any number of observables",
 "tests look at a few keys of a few headers",
 ["obs2.py","obs3.py","nav2.py","nav3.py"],[("header loops","obsheader2, obsheader3, navheader2, navheader3, obs2._skip_header")],["rinexheader(...)"])
# --- declined
p("C90","Fast and strict preallocation give identical values",
 "For every OBS 2 file, loading with fast=True and with fast=False gives equal datasets, or the fast read fails with an explicit error.",
 ["inputs","configurations"],"every file","one file is compared",["obs2.py"],[("_fast_alloc, _num_times","obs2")],["load(fast=True) versus load(fast=False)"])
p("C91","NetCDF output reads back equal",
 "Converting any readable file to NetCDF and loading that NetCDF file gives a dataset equal to the one loaded from the original, attributes included.",
 ["inputs"],"every readable file","a few files are round-tripped",["base.py","sp3.py"],[("to_netcdf encodings","base.rinexobs, base.rinexnav")],["load(out) versus load(in)"])
p("C92","Orbit positions meet metre-level accuracy",
 "keplerian2ecef agrees with the exact solution of the broadcast orbit to a stated accuracy for every eccentricity in the broadcast range.",
 ["inputs"],"every eccentricity and time","one vector at 1e-4",["keplerian.py"],[("eccentric anomaly approximation","keplerian2ecef")],["keplerian2ecef"])
p("C93","Hatanaka decompression is lossless",
 "Reading a CRINEX file gives the same data as reading the RINEX file it was made from.",
 ["inputs"],"every CRINEX file","three files",["rio.py"],[("hatanaka.crx2rnx","external package")],["load(crx) versus load(rnx)"])
p("C94","Memory estimate bounds the memory really used",
 "An OBS 2 read either stays within the memory estimate it checked before allocating, or refuses to start.",
 ["inputs"],"every file size and satellite count","never measured",["obs2.py","common.py"],[("check_ram","common.check_ram")],["peak memory"])
with open(pathlib.Path(__file__).parent.parent/"properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
