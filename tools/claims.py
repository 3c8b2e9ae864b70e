"""technique and level note per claimed property; reason per declined one"""
AI = "abstract interpretation of the source (path-sensitive, interprocedural)"
NOTE = "Decided from /repo's source on every run over all paths of the abstract program; library calls are modelled, see DESIGN.md for what is assumed."
CLAIMS = {
    "C01": (AI + "; relational comparison of record-loop paths", NOTE),
    "C02": (AI + "; line consumption of record-loop paths compared as closed forms", NOTE),
    "C03": (AI + "; tick conditions and updates evaluated on the path conditions", NOTE),
    "C04": (AI + "; selection scenarios over satellite letters, header systems and call forms", NOTE),
    "C06": (AI + "; argument flow to the readers", NOTE),
    "C07": (AI + "; call targets over the grid of versions and types", NOTE),
    "C08": (AI + "; write events over output scenarios, plus a syntax-tree scan of every file-changing call", NOTE),
    "C09": (AI + "; write modes and refusals over output-state scenarios", NOTE),
    "C19": (AI + "; outcomes of the per-file loop for every exception type load can raise", NOTE),
    "C10": (AI + "; the delivered stream as a term over the file's bytes, per container, suffix, first bytes and text kind", NOTE),
    "C11": (AI + "; the caller's stream position as a symbol that must not occur in any read offset; close events", NOTE),
    "C12": (AI + "; open and close events paired on every path, with faults in the body; typestate lint of every opening call", NOTE),
    "C20": (AI + "; exception types escaping first-line recognition; refusal over classes of foreign text", NOTE),
    "C27": (AI + "; every module is imported under every combination of absent optional packages; names left undefined or bound to None are traced to their uses, and the container layer is interpreted with each package absent", NOTE),
    "C22": (AI + "; the record loops and time scans are interpreted on epoch lines with flag 2, 3 and 4 and fixed record counts: no effect on any object or variable, position behind the record", NOTE),
    "C18": (AI + "; the time terms each record path files are extracted by abstract interpretation and evaluated for every value of every format field (two-digit years and SP3 carries one by one); column use and path conditions come from the source", NOTE),
    "C28": (AI + "; the time scan and the data reader are both interpreted on one symbolic record line; acceptance and time terms of all their paths are compared over every field format and over lines damaged in each field", NOTE),
    "C05": (AI + "; column provenance dataflow: every column of a record line is a label, abstract interpretation of the record loop gives the columns each result cell comes from", NOTE),
    "C26": (AI + "; column provenance dataflow: every column of a record line is a label, abstract interpretation of the record loop gives the columns each indicator cell comes from", NOTE),
    "C16": (AI + "; static analysis: abstract interpretation of rinexnav2/rinexnav3 from source over a skeleton file (texts fixed, values symbolic); cell-provenance (which columns of which record line reach which named field) compared with the broadcast order tables", NOTE),
    "C17": (AI + "; static analysis: abstract interpretation of rinexnav2/rinexnav3; provenance with a factor domain - the product of all scalings between the record columns and each returned field is 1000 for GLONASS/SBAS states and 1 elsewhere, on every path", NOTE),
    "C25": (AI + "; static analysis: abstract interpretation of the OBS readers over skeleton files with cell provenance (each cell of the result against its own record, row and satellite), lock-step counting of list appends per path of the NAV record loops, and comparison of the selection chains that pick times and values", NOTE),
    "C21": (AI + "; attributes of the result of each reader traced from header cells, branches and merges; types checked against what NetCDF stores", NOTE),
    "C23": (AI + "; constant propagation of the header's system letter and time system text to the time_system attribute", NOTE),
    "C24": (AI + "; abstract interpretation of load_sp3 over files of known line structure with cell provenance (every cell of every variable against the record of its epoch and satellite), and over the generic record loop", NOTE),
    "C29": (AI + "; the coordinates are extracted as terms over the broadcast elements by abstract interpretation of keplerian2ecef (no solver) and compared with the user algorithm's formula", NOTE),
    "C14": (AI + "; array provenance: which store, fill or allocation each result cell is read from, and a syntax-tree rule over every allocation without contents", NOTE),
    "C30": (AI + "; header files of known line structure, every content column an opaque mark; each entry's marks must be its own line's columns, and the stream position at entry of every record loop is the header's length", NOTE),
    "C13": (AI + "; each reader is interpreted on whole symbolic files twice, with every set iterated in one order and in the reverse, and the canonical results compared; terms standing for clock, random numbers, environment or process must not reach a result or a decision that changes it", NOTE),
    "C15": (AI + "; every reader (unconstrained files and whole symbolic files), header function, opener, load layer and tool is interpreted with the caller's collections, datasets and arrays, the module-level objects and the default argument values marked; any change of a marked object or of a view of it on any path, of process settings, and any memoised file content is reported", NOTE),
}
DECLINED = {
    "C90": "Equality of two runs with different preallocation over every file depends on the numerical size estimate against the file's content; no static argument in reach bounds it (labels and stores of each mode are decided under C25).",
    "C91": "Round-trip equality through the NetCDF library is a run-time property of that library; the part visible in the source (attribute types, groups) is decided under C21 and C09.",
    "C92": "Accuracy of the approximate anomaly solution is a numerical bound over all eccentricities; the formula structure is decided under C29.",
    "C93": "Decompression is done by the external crx2rnx program; only that it is applied when needed is visible in the source (C10).",
    "C94": "The memory really used is a run-time quantity of NumPy and xarray that no argument over the source bounds.",
}
