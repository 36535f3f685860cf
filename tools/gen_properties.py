"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os

NF = "nappy/na_file/"
NC = "nappy/nc_interface/"
UT = "nappy/utils/"
READERS = [NF + "na_file.py"] + [NF + "na_file_%d.py" % f for f in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Reading a well-formed NASA Ames file yields exactly what it encodes",
     "Opening and reading any well-formed file of the supported formats (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010) gives "
     "exactly the header items, independent-variable values, auxiliary values and data values that the Gaines & Hipskind specification "
     "assigns to that text, for every size, ordering and number of variables. "
     "This does not depend on how values are wrapped over lines or spaced, on trailing {annotations}, on trailing blank lines or on ignored leading lines.",
     ["inputs", "configurations"],
     "every dataset of every format within the size bounds x every physical layout of the same values",
     "Unit tests read one sample file per format and mostly assert nothing about the values; sizes, axis orders, definition styles, wraps and annotations they never combine are unconstrained.",
     READERS + [UT + "text_parser.py", UT + "right_strip.py", UT + "list_manipulator.py"],
     [("header readers", NF + "na_file*.py readHeader"), ("record readers", NF + "na_file*.py _readData1/_readData2"),
      ("line parsers", UT + "text_parser.py"), ("annotation stripping", UT + "right_strip.py"), ("nesting of flat records", UT + "list_manipulator.py populator")],
     [("X/V/A", "in-memory axes, data, auxiliary arrays", NF + "na_core.py"), ("NLHEAD", "where the data section starts", NF + "na_file.py")],
     ["nappy.openNAFile(...).readData() then getNADict()"])

prop("C02", "Writing a dataset and reading it back returns the same dataset",
     "For every valid dataset of every supported format, writing it to a file and reading that file back gives the same header items, names, "
     "scale factors, missing-value flags, axes, auxiliary values, data values and comments. "
     "Numbers come back exactly whenever the float format carries enough digits for them, and a value equal to its variable's missing-value flag still equals the flag that is read back.",
     ["inputs"],
     "every dataset of every format within the size bounds, including unequal axis lengths, single-element axes, several variables and auxiliary variables, and missing values",
     "Existing tests rewrite one sample file per format and do not compare the result; asymmetric shapes and several variables at once are never round-tripped.",
     READERS + [UT + "list_manipulator.py", UT + "common_utils.py"],
     [("header writers", NF + "na_file*.py writeHeader"), ("record writers", NF + "na_file*.py writeData"), ("readers", NF + "na_file*.py")],
     [("na_dict", "the dataset handed to the writer", NF + "na_file.py")],
     ["nappy.openNAFile(f, 'w', d).write(); nappy.openNAFile(f).readData()"])

prop("C03", "Every written file conforms to the NASA Ames specification",
     "Every file written with a header declares on its first line exactly the number of header lines it contains and the format index of its layout, and an independent reader "
     "that follows the published specification record by record accepts it and finds the dataset that was written. "
     "Each data record starts on a new line and appears in the order the specification prescribes (fastest axis first, one record per variable where the format says so), "
     "and a stale header-length in the dataset never reaches the file.",
     ["inputs"],
     "every dataset of every format within the bounds, with right, wrong and placeholder header counts, and every comment-section size",
     "nappy reading back what nappy wrote can hide matched errors in writer and reader; no test checks output against the specification.",
     READERS, [("header length correction", NF + "na_file.py _fixHeaderLength"), ("format-specific layout", NF + "na_file*.py writeHeader/writeData")],
     [("NLHEAD", "declared number of header lines", NF + "na_file.py")],
     ["bytes of the written file"])

prop("C04", "Writing leaves the caller's dataset as it was and is repeatable",
     "Writing a dataset changes none of the items in the dictionary the caller supplied, whatever the format and options. "
     "Any sequence of writes of the same dictionary, in any mixture of options and of headers on or off, therefore produces for each option set the same bytes as a first write would.",
     ["histories", "inputs"],
     "every sequence of writes (with option choices) up to the depth bound, on datasets of every format",
     "Tests write each dictionary once; damage to a shared list shows only on a later write of the same dictionary.",
     READERS, [("header writers reverse axis lists", NF + "na_file_2010.py, na_file_2110.py, na_file_2160.py, na_file_2310.py")],
     [("na_dict lists", "axis lists shared between caller and writer", NF + "na_file.py _parseDictionary")],
     ["dictionary deep-compare before/after; bytes of each file"])

prop("C05", "Formatting options change only the formatting they describe",
     "Writing with another delimiter gives the same items separated by that delimiter, writing with annotations gives the same lines with one extra labelled left-hand column, "
     "writing without header gives exactly the lines that follow the header in the full file, and writing with another float format changes only how data and axis numbers are printed. "
     "This holds for every format and every combination of these options.",
     ["configurations", "inputs"],
     "all combinations of delimiter x float format x annotation x header on/off, over datasets of every format",
     "Tests use one option at a time on one or two formats and never compare the outputs with each other.",
     READERS + [UT + "common_utils.py", UT + "list_manipulator.py", "nappy/config/annotations.ini"],
     [("annotation column", UT + "common_utils.py annotateLine(s)/getAnnotation"), ("no_header switch", NF + "na_file.py write"), ("record joining", NF + "na_file*.py writeData")],
     [], ["bytes of the written files"])

prop("C06", "A write is all there when it returns; every refused or failed write is reported",
     "When a write call returns normally, the complete file is already in the file system even if the process dies at once without closing. "
     "Writing to a file opened for reading, writing a second time, or writing after close always raises and leaves the stored bytes untouched, and if the operating system refuses any part of the output the caller gets an exception.",
     ["crash_points", "histories", "fault_sequences"],
     "every sequence of write/close/read-mode operations up to the depth bound; process death after each operation; an output error at every byte budget of the file",
     "Tests close files properly and never kill the process, fill the device or misuse the object in sequences.",
     [NF + "na_file.py", "nappy/nappy_api.py"],
     [("flush at end of write", NF + "na_file.py write"), ("mode, written and open flags", NF + "na_file.py write")],
     [("mode, data_written, is_open", "life-cycle state of a file object", NF + "na_file.py")],
     ["file content observed by another process"])

prop("C07", "Reading and querying an open file any number of times gives the same answers",
     "For a file opened for reading, any sequence of reading the data, asking for the dictionary, calling metadata queries and converting the open file leaves later answers equal to those of "
     "a freshly opened file on which the data was read once.",
     ["histories"],
     "every sequence of read/query/convert operations up to the depth bound, for every format",
     "Tests read a file once; repeated reads accumulate state only visible in longer histories.",
     READERS + [NF + "na_core.py", NC + "na_to_nc.py", NC + "na_to_xarray.py"],
     [("array reset before reading", NF + "na_file*.py _setupArrays"), ("dictionary snapshot", NF + "na_core.py getNADict")],
     [("X, V, A, NX, DX", "arrays rebuilt on each read", NF + "na_file*.py")],
     ["getNADict() and getters after each operation sequence"])

prop("C08", "Metadata queries agree with the file's header",
     "Every metadata query (variables, independent and auxiliary variables, missing values, scale factors, dates, volumes, comments, originator, organisation, source, mission, header length, format index) "
     "reports exactly the corresponding header items of that file, index by index. "
     "A name is split into name and units by the documented 'name (units)' rule, or by the caller's pattern or callback if one is given, and a name without units is returned whole with no units.",
     ["inputs", "configurations"],
     "files of every format x every name form from the alphabet x default pattern, custom pattern and callback",
     "Tests query a handful of names; positions beyond the first, character auxiliary variables and unusual name forms are untested.",
     [NF + "na_core.py", NF + "na_file.py", "nappy/nappy_api.py"],
     [("name/units split", NF + "na_core.py _attemptVarAndUnitsMatch"), ("getters", NF + "na_core.py")],
     [], ["get*() methods"])

prop("C09", "A file that is cut short or inconsistent is rejected, promptly and always",
     "If a well-formed file loses its tail anywhere inside the header or inside a data record, or one numeric header or data item is removed, added or made non-numeric (or, where a whole number is required, given a fraction), or a blank line is put before or between data records, "
     "or its declared header length disagrees with its header, then opening and reading it raises an error. "
     "It never hangs, never consumes unbounded memory and never returns data as if nothing had happened.",
     ["fault_sequences", "inputs"],
     "every line-level truncation point, and every single-item corruption, of files of every format",
     "Tests contain a couple of hand-made bad files; the guarantee is about every position in every format.",
     READERS + [UT + "text_parser.py"],
     [("item count checks", UT + "text_parser.py"), ("blank line check", NF + "na_file.py _checkForBlankLines")],
     [("NLHEAD vs lines consumed", "consistency of the header", NF + "na_file.py")],
     ["nappy.openNAFile / readData outcome within a time and memory limit"])

prop("C10", "The format index is recognised from the file and chosen from the dataset",
     "Opening a file for reading always uses the format index on its first line, after skipping exactly the requested number of ignored lines. "
     "For a dataset without an index, the chosen index is the one whose structure the dataset has: by number of independent variables, text-valued axis, per-mark second axes "
     "(fully listed or first value only), auxiliary variables and implied points; a dataset with an index keeps it, and more than four independent variables is refused.",
     ["inputs"],
     "every dataset structure within the bounds (with and without its own index), every ignored-line count up to the bound",
     "Tests try one dictionary per branch; single-mark and single-point datasets at the edges of the decision are not tried.",
     [UT + "common_utils.py", "nappy/nappy_api.py"],
     [("index choice", UT + "common_utils.py chooseFFI"), ("index reading", UT + "common_utils.py readFFI"), ("class lookup", UT + "common_utils.py getNAFileClass")],
     [], ["nappy.chooseFFI, nappy.readFFI, class of nappy.openNAFile result, first line of the written file"])

prop("C11", "NASA Ames to NetCDF keeps every variable, axis and value in its place",
     "Converting any 1001, 1010, 1020, 2010, 3010 or 4010 file yields one NetCDF variable per data and auxiliary variable, none lost or merged, each on the file's axes in order "
     "(auxiliary variables on the first axis), with each element equal to the scaled file value at that position; variables and axes carry the units their names give in brackets. "
     "Axes carry exactly the coordinate values the file defines, including those defined only by start and increment, and the kinds of file that cannot be represented are refused with a clear error.",
     ["inputs"],
     "every dataset of the convertible formats within the bounds, including implied axes, equal or unequal lengths, name collisions and scale factors",
     "Tests convert one sample per format and only check that a file appears.",
     [NC + "na_to_xarray.py", NC + "na_to_nc.py", NC + "xarray_utils.py", NF + "na_file_1020.py", NF + "na_file_2010.py"],
     [("axis expansion", NF + "na_file_2010.py/_1020.py _normalizeIndVars"), ("variable building", NC + "na_to_xarray.py"), ("dataset assembly", NC + "na_to_nc.py writeNCFile")],
     [("xr_axes", "shared axes of a conversion", NC + "na_to_xarray.py")],
     ["NetCDF file opened with netCDF4; readXarrayObjectsFromNA"])

prop("C12", "Missing data stay missing, and only missing data, in every conversion",
     "In a conversion from NASA Ames to NetCDF, elements are flagged missing in the output exactly where the input equals the variable's missing-value flag, whatever the scale factor. "
     "In a conversion from NetCDF to NASA Ames, elements equal the declared missing-value flag in the output exactly where the input is missing, and the declared flag is a number that can be read back and compared.",
     ["inputs"],
     "every placement of missing elements in small arrays x flag values x scale factors x storage types, both directions, data and auxiliary variables",
     "Tests use at most one data set with missing values and compare nothing elementwise.",
     [NC + "na_to_xarray.py", NC + "xarray_utils.py", NC + "na_content_collector.py", NF + "na_file.py"],
     [("masking and scaling", NC + "na_to_xarray.py"), ("missing-value lookup", NC + "xarray_utils.py getMissingValue/getArrayAsList"), ("flag formatting", NF + "na_file.py")],
     [], ["NetCDF masks; NASA Ames values versus VMISS/AMISS"])

prop("C13", "NASA Ames to NetCDF and back preserves the dataset",
     "Converting a convertible NASA Ames file to NetCDF and the result back to NASA Ames gives files in which every original data variable appears exactly once with its values (scaled), its axes and its units, in the original order, "
     "auxiliary variables remain auxiliary, and originator, organisation, source, mission, dates and the original comment lines are still present.",
     ["inputs", "histories"],
     "every dataset of the convertible formats within the bounds, with comment sections of every shape from the alphabet",
     "No test compares the ends of the chain; each half is exercised on single samples.",
     [NC + "na_to_xarray.py", NC + "na_to_nc.py", NC + "na_content_collector.py", NC + "xarray_to_na.py", NC + "nc_to_na.py"],
     [("variable numbering attributes", NC + "na_to_xarray.py / na_content_collector.py _reorderVarsIfPreviouslyNA"), ("comment mapping", NC + "na_to_xarray.py / na_content_collector.py")],
     [], ["final NASA Ames files versus the original"])

prop("C14", "NetCDF to NASA Ames writes every selected variable exactly once",
     "Converting a dataset writes every selected non-coordinate, non-bounds array variable to exactly one of the output files, either as a data variable or as an auxiliary variable, "
     "together with the other variables that share its structure, and every scalar variable's value is reported in a header. "
     "The list returned names exactly the files written, without repetition, and no variable is silently dropped.",
     ["inputs"],
     "every combination of variables over a small alphabet of shapes and axes (equal, unequal, subset, same-length and scalar)",
     "Tests convert a few sample datasets; whether variables survive depends on the combination of shapes present.",
     [NC + "na_content_collector.py", NC + "xarray_to_na.py", NC + "nc_to_na.py", NC + "xarray_utils.py"],
     [("grouping of variables", NC + "na_content_collector.py _analyseVariables"), ("repeat until nothing is left", NC + "xarray_to_na.py convert"), ("axis identity", NC + "xarray_utils.py areAxesIdentical")],
     [("unused_vars", "variables left for the next file", NC + "na_content_collector.py")],
     ["set of output files and their variables"])

prop("C15", "NetCDF to NASA Ames keeps values, axes, names and units",
     "In the NASA Ames output of a conversion, each variable's values, its coordinate values along every axis, its name and its units are those of the source, with array dimensions in the same order, "
     "for one to four dimensions and for evenly and unevenly spaced, increasing and decreasing axes. "
     "Declared spacings and counts agree with the coordinates actually present.",
     ["inputs"],
     "every shape and axis style within the bounds for one to four dimensions",
     "Tests check that files are produced, not that the numbers in them are the source's.",
     [NC + "na_content_collector.py", NC + "xarray_to_na.py", NC + "xarray_utils.py", NF + "na_file_2010.py"],
     [("axis definitions", NC + "na_content_collector.py _appendAxisDefinition/_defineNAVars"), ("naming", NC + "xarray_utils.py getBestName")],
     [], ["NASA Ames files read by an independent reader"])

prop("C16", "Splitting by size limit loses and repeats nothing",
     "With a row limit, a one-dimensional (1001) output longer than the limit is split into consecutive files that each hold at most that many rows, "
     "whose rows put end to end are exactly the unsplit rows in order, numbered 1..n of n, each a valid file with the same other metadata and written with the same options. "
     "The files returned are exactly those written, once each, in order, with distinct names; anything within the limit or not one-dimensional is not split.",
     ["inputs", "configurations"],
     "every row count and limit up to the bound x output naming x header/annotation/delimiter options x several groups of variables",
     "One test with one length and limit; remainders and option interplay are untested.",
     [NC + "xarray_to_na.py", UT + "common_utils.py"],
     [("chunk loop", NC + "xarray_to_na.py _writeNAFileSubsetsWithinSizeLimit"), ("dictionary slicing", UT + "common_utils.py modifyNADictCopy")],
     [], ["returned list; file contents"])

prop("C17", "Requested header overrides appear exactly and nothing else changes",
     "Header items the caller asks to override when converting to NASA Ames appear in the output exactly as requested (comments being added to the existing ones according to the configured rule), "
     "with all counts consistent, in every output file; items not overridden are the same as in a conversion without overrides, and no override persists into a later conversion.",
     ["configurations", "histories"],
     "every subset of overridable items from the alphabet x datasets x sequences of two conversions",
     "Tests override one item once.",
     [NC + "xarray_to_na.py", UT + "parse_config.py", "nappy/config/local_attributes.ini"],
     [("override loop", NC + "xarray_to_na.py writeNAFiles"), ("comment merge", NC + "xarray_to_na.py _cleanWrapComments")],
     [("local attributes configuration", "cached defaults", UT + "parse_config.py")],
     ["headers of the files written"])

prop("C18", "A requested format is honoured faithfully or refused",
     "When the caller requests a particular format index for a conversion to NASA Ames, the output either is in that format and encodes the same axes and values as the default output, or the conversion raises an error. "
     "It never writes a different format, and never a file of the requested format with different data.",
     ["inputs", "configurations"],
     "every requested index (including unknown ones) x datasets of every rank and axis style within the bounds",
     "Tests request an index on one dataset and do not compare the encoded data.",
     [NC + "na_content_collector.py"],
     [("format decision", NC + "na_content_collector.py _decideFileFormatIndex"), ("2110/2310 rearrangement", NC + "na_content_collector.py _defineNAVars")],
     [], ["output files read by an independent reader"])

prop("C19", "The announced output names are the names written",
     "Asking only for the output file names returns exactly the names, in order, that the same conversion would write, and writes nothing. "
     "Names derive from the given output name (or the input name with its extension replaced), are all distinct, and never overwrite the input.",
     ["inputs", "configurations"],
     "every output/input name form from the alphabet (several dots, no extension, directories with dots) x number of output files x option",
     "One test with one name form.",
     [NC + "xarray_to_na.py", UT + "common_utils.py", "nappy/nappy_api.py"],
     [("name construction", NC + "xarray_to_na.py constructNAFileNames"), ("extension replacement", UT + "common_utils.py getFileNameWithNewExtension")],
     [], ["returned names versus directory listing"])

prop("C20", "The command-line tools do what the API does",
     "Each documented option of the conversion commands has the documented effect: running a command with any combination of its options gives the same files, byte for byte, as the corresponding API call, "
     "and the CSV command always writes comma-separated output, whether started as a script or as an installed command. "
     "Unknown or missing options convert nothing.",
     ["configurations"],
     "every pair of documented options (with small argument alphabets) of each command",
     "Tests call the commands with two or three fixed argument lists.",
     ["nappy/script/nc2na.py", "nappy/script/na2nc.py", "nappy/script/nc2csv.py", "nappy/nappy_api.py"],
     [("argument parsing", "nappy/script/*.py parseArgs")], [], ["files written by the command versus by the API"])

prop("C21", "The comparison tool says 'same' exactly when the files are the same",
     "Comparing two NASA Ames or CSV files reports equality exactly when the selected parts (header, body or both) have the same lines and items, numbers being compared by value unless strict comparison is chosen "
     "and within the stated tolerance when approximate comparison is chosen; comparing two directories reports equality exactly when they hold the same files (other than excluded ones) and each pair is equal in this sense. "
     "Any added, removed or changed line or item in a selected part is reported, in whichever file it occurs, and a difference in an unselected part is not.",
     ["inputs", "configurations"],
     "every single edit of small files x every option combination x both argument orders",
     "Tests only compare files expected to be equal.",
     [UT + "compare_na.py", UT + "compare.py", "nappy/nappy_api.py"],
     [("section comparison", UT + "compare_na.py compareSections"), ("result combination", UT + "compare_na.py compNAFiles")],
     [], ["return value of the comparison"])

prop("C22", "Conversions do not depend on what was done before",
     "The result of any API call depends only on its arguments, input files and configuration: after any sequence of other calls in the same process (including failing ones and ones with overrides), "
     "it equals the result obtained in a fresh process, and changing a dictionary or configuration object obtained from the library does not change later results.",
     ["histories"],
     "every sequence of API operations from the alphabet up to the depth bound, compared with each operation alone in a fresh process",
     "Tests run each call once, in isolation; leaks through module-level caches or shared defaults need a history.",
     ["nappy/nappy_api.py", UT + "parse_config.py", NC + "xarray_to_na.py", NC + "na_to_xarray.py", NC + "na_content_collector.py"],
     [("cached configuration handed out as copies", UT + "parse_config.py"), ("per-call state in converters", NC + "*.py")],
     [("config_dict, annotations_config_dict, attributes_config_dict", "module-level caches", UT + "parse_config.py")],
     ["outputs of each operation"])

prop("C23", "Times keep their meaning across conversions",
     "When a time axis is converted from NetCDF to NASA Ames, its numbers are the source's numbers in the source's units and calendar, the units are part of the axis name, and the header's first date is the calendar date of the first time in that calendar. "
     "When converted from NASA Ames to NetCDF with given time units, the numbers are unchanged and carry those units.",
     ["inputs"],
     "every combination of time unit, calendar, epoch and start value from the alphabets, for 1-D and 2-D variables and differently named time coordinates",
     "Tests use standard-calendar data and check no dates.",
     [NC + "na_content_collector.py", NC + "xarray_utils.py", NC + "na_to_xarray.py"],
     [("date from first time", NC + "na_content_collector.py _defineGeneralHeader"), ("numbers from decoded times", NC + "xarray_utils.py datetimes_to_nums")],
     [], ["DATE and X of the output; units of the NetCDF time axis"])

prop("C24", "Independent operations in different threads do not disturb each other",
     "When several threads each read, write or look up configuration for their own files at the same time, every operation's result is the one it has when run alone, for every interleaving of their steps, including the very first use of the library's lazily built configuration.",
     ["schedules"],
     "every interleaving of two threads' operations at statement granularity up to the preemption bound",
     "Tests are single-threaded.",
     [UT + "parse_config.py", UT + "common_utils.py", NF + "na_file.py", UT + "list_manipulator.py"],
     [("lazily built configuration caches", UT + "parse_config.py"), ("per-object reader/writer state", NF + "na_file.py")],
     [("config_dict and friends", "lazily built module-level caches", UT + "parse_config.py")],
     ["results of both threads after each schedule"])

prop("C25", "Selecting, excluding, renaming and adding affect exactly what was named",
     "Choosing or excluding variables in a conversion from NetCDF converts exactly the named variables and leaves their content as in the full conversion. "
     "Choosing variables or auxiliary variables by name or position, renaming them, and adding global attributes in a conversion to NetCDF does exactly that, the rest of the output being as without the option, and appending to an existing NetCDF file keeps what it held.",
     ["configurations", "inputs"],
     "every subset of variables x selection style x rename map x added attributes from the alphabets",
     "Tests select one variable of one file.",
     [NC + "nc_to_na.py", NC + "na_to_xarray.py", NC + "na_to_nc.py", "nappy/nappy_api.py"],
     [("selection", NC + "nc_to_na.py _readXarrayFile, na_to_xarray.py _convertXarrayVariables"), ("renaming", NC + "na_to_xarray.py"), ("append mode", NC + "na_to_nc.py writeNCFile")],
     [], ["variables and attributes of the output"])

prop("C26", "CSV output is the same dataset separated by commas",
     "Converting a NASA Ames or NetCDF file to CSV, whether the output name is given or derived, writes the same lines and items as the NASA Ames output with commas as separators. "
     "The annotation and no-header choices have on it the same effect as on a NASA Ames file.",
     ["inputs", "configurations"],
     "files of every format and NetCDF datasets of every rank x named/default output x annotation x no-header",
     "Tests only check that the CSV file appears.",
     ["nappy/nappy_api.py", UT + "common_utils.py"] + READERS,
     [("CSV conversion calls", "nappy/nappy_api.py convertNAToCSV/convertNCToCSV")], [], ["bytes of the CSV file versus the NASA Ames file"])

prop("C27", "In-memory conversions agree with file conversions",
     "Writing in-memory xarray variables to NASA Ames or CSV with any options gives the files that saving them to NetCDF with xarray and converting these variables of that file would give; reading a NASA Ames file into xarray variables gives the variables, values and attributes its NetCDF conversion contains; "
     "extracting a single variable gives that variable; and writing a NASA Ames dictionary to NetCDF gives what converting the written file gives.",
     ["inputs", "configurations"],
     "datasets of every convertible format and rank x options of the in-memory calls",
     "No test calls most of these functions.",
     ["nappy/nappy_api.py", NC + "xarray_objs_to_na_files.py", NC + "xarray_to_na.py", NC + "na_to_xarray.py"],
     [("in-memory API", "nappy/nappy_api.py convertXarrayObjectsToNA, readXarrayObjectsFromNA, getXarrayVariableFromNA, writeNADictToNC")],
     [], ["outputs of the two routes"])

prop("C28", "Header items and comments map to global attributes and back",
     "Converting NASA Ames to NetCDF records originator, organisation, source, mission, volume numbers, first date, format index and all special and normal comment lines, in order, in the documented global attributes. "
     "Converting NetCDF to NASA Ames puts institution, source, title, history, comments and every other textual or numeric global attribute and attribute of a data or auxiliary variable into the header, none lost, with declared comment counts equal to the comment lines present.",
     ["inputs"],
     "every combination of attributes and comment shapes from the alphabets, both directions",
     "Tests look at no attribute values.",
     [NC + "na_to_xarray.py", NC + "na_content_collector.py", "nappy/config/nappy.ini"],
     [("mapping tables", "nappy/config/nappy.ini"), ("global attributes to header", NC + "na_content_collector.py _defineNAGlobals/_defineNAComments"), ("header to global attributes", NC + "na_to_xarray.py _mapNACommentsToGlobalAttributes")],
     [], ["global attributes; header lines"])

prop("C29", "The user's configuration files take effect exactly as written",
     "The labels of annotated output, the header items that every NetCDF conversion fills in and the NetCDF attributes mapped to header items are those of the files named in NAPPY_ANNOTATIONS and NAPPY_LOCAL_ATTRIBUTES at the time of the call, word for word, and the packaged ones if none is named; items given in the call win over them and nothing else of the output depends on them. "
     "Looking up a configuration file gives exactly its sections, items and values, and nothing a caller does with the result changes later look-ups.",
     ["configurations", "inputs", "histories"],
     "every label, every subset of local header items x texts x datasets x items of the call, every attribute mapping, and every sequence of three choices of files within one process",
     "No test uses any configuration but the packaged one.",
     [UT + "parse_config.py", UT + "common_utils.py", NC + "xarray_to_na.py", NC + "na_content_collector.py", "nappy/config/annotations.ini", "nappy/config/local_attributes.ini"],
     [("look-up and caches", UT + "parse_config.py"), ("labels", UT + "common_utils.py getAnnotation"), ("local header items", NC + "xarray_to_na.py writeNAFiles"), ("mapped attributes", NC + "na_content_collector.py _defineNAGlobals")],
     [], ["labels and header lines of the output; dictionaries returned"])

prop("C30", "Every call lets go of the files it used, however it ends",
     "Once a call of the public interface has returned or failed, at whatever point and for whatever reason, none of the files it opened is still open: it can be replaced, rewritten or deleted at once, and the next call on that name gives what its new contents mean. "
     "A file object lets go of its file on close, at the end of a with block, or when it is discarded.",
     ["histories", "crash points", "inputs"],
     "every call x every way of failing, every cut of the inputs, every byte position at which output is refused, every sequence of file-object steps and of calls with rewritten inputs",
     "Tests never look at open files and use each file once.",
     ["nappy/nappy_api.py", NF + "na_file.py", NC + "nc_to_na.py", NC + "na_to_nc.py", UT + "common_utils.py", UT + "compare_na.py"],
     [("closing", NF + "na_file.py close/__del__/__exit__"), ("opening of NetCDF input", NC + "nc_to_na.py _readXarrayFile"), ("append", NC + "na_to_nc.py _checkCanAppend"), ("reading the format index", UT + "common_utils.py readFFI")],
     [], ["open files of the process; results after rewriting"])

prop("C31", "Results do not depend on the environment of the process",
     "Every read, write, conversion and comparison gives the same result whatever the hash seed, time zone, locale, interpreter options, standard streams (also closed ones), umask, order of imports or logging set-up of the process, and however and wherever the paths of its files are spelled, "
     "apart from today's date and the time of conversion; texts beyond ASCII are kept.",
     ["configurations"],
     "every single deviation and pairs of deviations of the environment x a series of some 300 calls on files of every kind, each environment in a process of its own",
     "Tests run in one environment with a fixed hash seed.",
     ["nappy/nappy_api.py", NF + "na_file.py", NC + "na_to_xarray.py", NC + "na_content_collector.py", NC + "xarray_to_na.py", UT + "common_utils.py"],
     [("prompt for time units", NC + "na_to_xarray.py _convertNAIndVarToXarrayAxis"), ("orders of attributes and variables", NC + "na_content_collector.py"), ("names of files", NC + "xarray_to_na.py, " + UT + "common_utils.py")],
     [], ["results of the calls, bytes of the files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
