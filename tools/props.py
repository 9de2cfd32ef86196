#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says about their checks.  Run me to rewrite properties.jsonl and MANIFEST.json."""
import json, os
P = []
N = "Sound up to the documented behaviour of the standard library and the go-containerregistry/cobra/dexec APIs; loops are analysed to a fixpoint, paths are not bounded."

def prop(id, title, statement, over, qtext, why, files, mech, tech=None, note=N, na=None, design=None):
    assert len(title) <= 80, id
    assert statement.count(". ") <= 2, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), technique=tech, note=note, na=na, design=design))

prop('C01', 'Layer timestamps never exceed the clamp time',
    "In every layer built from a directory or from file references, each entry's modification time is the source file's own time when that is not later than the clamp time and exactly the clamp time otherwise, and access and change times are never later than the clamp time. Entries that have no source file carry the clamp time. Installing a wheel hands one and the same clamp time to the layer, to the bytecode compiler and to the post-install hook; a maximum time given by the caller is that clamp time.",
    ['inputs', 'configurations'], 'all file trees, wheels, source timestamps and clamp times',
    'Tests build a few layers with one clamp time; they compare whole layers of fixed wheels and never a file whose time equals, precedes or follows the clamp in each entry kind.',
    ['pkg/dir/dir.go', 'pkg/fsutil/fileref.go', 'pkg/python/pypa/bdist/binary_distribution_format.go'],
    [('clamping of header times before the header is written', 'pkg/dir/dir.go, pkg/fsutil/fileref.go'), ('one clamp time for hook, compiler and layer', 'pkg/python/pypa/bdist/binary_distribution_format.go: InstallWheel')],
    'path-sensitive dataflow (value numbering) at every tar header write')

prop('C04', 'A directory layer holds every file of the directory, faithfully',
    'A layer made from a directory has exactly one entry for every path below the directory (and none for the directory itself), named by its path relative to the directory below the prefix if one is given, with the type, mode, size, device numbers and extended attributes of that file. Regular files carry their whole content, symbolic links their target, and a hard-link entry names an entry that was written for the same file. Any error while walking, reading or writing makes the build fail instead of yielding an incomplete layer.',
    ['inputs', 'fault_sequences'], 'all directory trees (hard links, symlinks, devices, unreadable files) and I/O failures',
    'There is no test of directory layers with hard links, symlinks or failing reads.',
    ['pkg/dir/dir.go'],
    [('walk callback that writes one header and body per path', 'pkg/dir/dir.go: LayerFromDir')],
    'typestate over the walk callback, per visited path, with value numbering of header fields')

prop('C05', 'Ownership overrides and prefix directories of directory layers',
    'An ownership override replaces, in every entry made from a file, exactly the parts that were given (ids that are not negative, names that are not empty) and leaves the others as they are on disk. The directories of a prefix are written from the outermost to the innermost, before the files, with the requested ownership and mode (0755 if no mode was given). Building ends for every prefix, relative or absolute.',
    ['inputs', 'configurations'], 'all combinations of override parts, prefixes and modes',
    'No test covers ownership overrides; whether the header is changed before it is written cannot be seen from one example.',
    ['pkg/dir/dir.go', 'cmd_layer_dir.go'],
    [('override of header fields', 'pkg/dir/dir.go: LayerFromDir'), ('prefix loop', 'pkg/dir/dir.go: LayerFromDir')],
    'path-sensitive dataflow on header fields; loop termination by fixed points of the parent operation')

BF = 'pkg/python/pypa/bdist/binary_distribution_format.go'
prop('C12', 'A wheel is used only if every file in it matches RECORD',
    "Installing a wheel fails, before anything is compiled, hooked or packed, unless every file in the zip other than RECORD itself and its RECORD.jws and RECORD.p7s signatures has a RECORD row whose sha256, sha384 or sha512 digest and whose size equal those of the file's whole content. A file that RECORD does not list, a malformed row, a row without digest or size, a row for a file that is absent, a weak or unknown algorithm, or a second entry with the same name makes the installation fail.",
    ['inputs'], 'all zip contents and RECORD files',
    'Tests install a handful of intact wheels; no test has a wheel that should be rejected.',
    [BF], [('integrity check before installation', BF + ': integrityCheck, InstallWheel')],
    'per-iteration typestate over the loops of the integrity check, path-sensitive, from InstallWheel to the first use of the files')

prop('C17', 'RECORD lists every installed file, exactly once',
    "The RECORD file written on installation has exactly one row for each installed file that is not a directory, and one for itself; names are relative to the directory that holds the dist-info directory, rows are sorted by name and end in CRLF. The hash is algorithm=digest over the file's own content in URL-safe unpadded base64 (the requested algorithm, sha256 by default) and the size is that file's, except that .pyc files and RECORD itself have neither and rewritten scripts have those from before the rewrite. Nothing is added to the tree after RECORD was computed, and in the commands the RECORD hook runs after every other hook.",
    ['inputs', 'configurations'], 'all installed trees, hash algorithms and combinations of hooks',
    'The comparison against pip needs network access and samples a few wheels; which files are passed over depends on their names and kinds.',
    ['pkg/python/pypa/recording_installs/recording_installs.go', 'cmd_layer_wheel.go'],
    [('rows of RECORD', 'pkg/python/pypa/recording_installs/recording_installs.go: Record'), ('order of the hooks', 'cmd_layer_wheel.go')],
    'per-iteration obligations over the loop that collects rows; value numbering of each row; typestate of the tree after collection')

prop('C19', 'Every entry point gets exactly the script it describes',
    "For every entry of console_scripts and gui_scripts the installation either fails or stores one script, under the entry's name in the scripts directory, that starts with the console (respectively graphical) interpreter, imports the first attribute of the reference from its module and calls the whole reference. An entry whose value is not module:attribute, with attributes separated by dots and optional extras in brackets, makes the installation fail; no entry is skipped.",
    ['inputs'], 'all entry_points.txt contents and platforms',
    'No test covers entry points with dotted attributes, extras or malformed references.',
    ['pkg/python/pypa/entry_points/entry_points.go'],
    [('script generation', 'pkg/python/pypa/entry_points/entry_points.go: CreateScripts')],
    'per-iteration typestate over the entries; static rendering of the template with the traced data; syntax-tree check of the reference pattern')

prop('C36', 'Generated files are consistent with what they hold',
    "Every file or directory that installation makes up (INSTALLER, REQUESTED, direct_url.json, RECORD, entry-point scripts, missing parent directories) is stored under its own name, its size is the length of its content and its time is the clamp time. Metadata files have mode 0644, scripts and directories 0755. INSTALLER holds the installer's name and a newline; REQUESTED holds the marker and a newline, or nothing if there is no marker.",
    ['inputs', 'configurations'], 'all installer names, markers, entry points and trees',
    'Tests see one installer name and one clamp time; a wrong size only breaks the layer for particular contents.',
    ['pkg/python/pypa/recording_installs/recording_installs.go', 'pkg/python/pep376', 'pkg/python/pypa/direct_url', 'pkg/python/pypa/entry_points/entry_points.go', BF],
    [('in-memory files stored by hooks', 'all post-install hooks'), ('parent directories', BF + ': InstallWheel')],
    'dataflow (value numbering) at every store of an in-memory file into the tree')

prop('C13', 'Nothing from a wheel ends up outside the directories it may install to',
    "A wheel that has an entry whose cleaned name is absolute or leads out of its directory through a parent reference is rejected before anything is unpacked, and so is an entry point whose script name does; the directories of the install scheme are required to be absolute, and are cleaned, before any name is joined to them. Files that post-install hooks add are under constant names of the dist-info directory or such checked script names. When sources are compiled, a file is written to disk only if its name is a valid slash-separated relative path, so it stays below the temporary directory.",
    ['inputs', 'configurations'], 'all wheels, entry points and install schemes',
    'Tests install only well-behaved wheels; a name that escapes goes unnoticed until somebody unpacks the layer.',
    [BF, 'pkg/python/py_compile.go', 'pkg/python/platform.go', 'pkg/python/pypa/entry_points/entry_points.go', 'pkg/python/pypa/bdist/misc.go'],
    [('names of the entries', BF + ': integrityCheck, installToVFS'), ('install scheme', 'pkg/python/platform.go: Init; pkg/python/pypa/bdist/misc.go: sanitizePlatformForLayer'), ('temporary tree', 'pkg/python/py_compile.go: ExternalCompiler'), ('script names', 'pkg/python/pypa/entry_points/entry_points.go: CreateScripts')],
    'taint analysis with sanitizer recognition: every name joined to a directory is traced to a validity test that holds on the path')

prop('C14', 'A wheel is installed in full, each file where its kind belongs',
    "Every entry of the wheel is installed: below purelib if WHEEL says Root-Is-Purelib: true and below platlib otherwise, except that a file of NAME.data/KEY, with KEY one of purelib, platlib, headers, scripts and data, goes to the same relative name below the directory that the platform has for KEY, and any other KEY makes the installation fail. Only RECORD, RECORD.jws, RECORD.p7s and the entry of the data directory itself are dropped; every file the compiler returns is added under its own name. Nothing is unpacked if the major number of Wheel-Version exceeds 1, and the hooks run after compilation and are given the path of the only dist-info directory.",
    ['inputs', 'configurations'], 'all wheels and install schemes',
    'The comparison with pip needs the network; the tests that run have no wheels with all kinds of data directories.',
    [BF, 'pkg/python/pypa/bdist/misc.go', 'pkg/python/pypa/bdist/ioutil.go'], [('unpack and spread', BF + ': installToVFS'), ('dist-info directory', 'pkg/python/pypa/bdist/misc.go: distInfoDir')],
    'per-iteration obligations over the unpack, spread and compile loops; value numbering of source and destination names; typestate of deletions')

prop('C15', 'Installed files get the owner, mode and time that the platform prescribes',
    "Every entry of the layer of a wheel, be it from the wheel, generated by a hook, compiled or an added parent directory, has the uid, gid, user and group names of the platform, while its name, content and other attributes stay its own. Unpacked directories have mode 0755, regular files with any execute bit 0755 and all else 0644. Unpacked files get the requested minimum time, or keep their own if none was requested.",
    ['inputs', 'configurations'], 'all wheels and platforms',
    'Depends on the mode bits and kinds of the entries of the zip, of which tests sample a few.',
    [BF, 'pkg/python/pypa/bdist/ioutil.go', 'pkg/python/pypa/bdist/misc.go'], [('owner', BF + ': InstallWheel'), ('mode and time', 'pkg/python/pypa/bdist/ioutil.go: create')],
    'path-sensitive value tracking of every header field from the zip entry to the tar header; mode computed from the conditions of each path')

prop('C16', 'The layer of a wheel is a complete tree in a fixed order',
    "For every installed file each ancestor directory is in the layer, made with mode 0755 if the wheel has none, after all hooks ran. The entries of the layer are sorted by full name, compared part by part, so a directory comes before what it contains. Each has the attributes and, if it is a regular file, the complete content of its file; any error in reading or writing makes the installation fail.",
    ['inputs'], 'all installed trees',
    'Go map iteration is random, so an ordering mistake shows only for some trees in some runs.',
    [BF, 'pkg/fsutil/fileref.go'], [('parent directories', BF + ': InstallWheel'), ('layer', 'pkg/fsutil/fileref.go: LayerFromFileReferences')],
    'per-iteration obligations over the loops that add parents and write entries; symbolic summary of the comparison function; must-check of errors')

prop('C18', 'Exactly the scripts that start with #!python are rewritten',
    "A file of NAME.data/scripts, in whatever subdirectory, is rewritten if and only if it starts with #!python, and no other file is. Its #!python becomes #! and the console interpreter of the platform, #!pythonw becomes #! and the graphical one; the rest of the content follows unchanged, the declared size is that of the new content, and the execute bits are set.",
    ['inputs', 'configurations'], 'all scripts and platforms',
    'No test that runs here rewrites a script.',
    [BF, 'pkg/python/pypa/bdist/ioutil.go'], [('rewriting', BF + ': rewritePython'), ('skipping the old line', 'pkg/python/pypa/bdist/ioutil.go: skipReader')],
    'path-sensitive symbolic summary of each loop iteration: condition, content, size and mode of the rewritten file')

prop('C34', 'Python sources are compiled completely and reproducibly',
    "Every installed file whose name ends in .py is handed to the compiler with purelib and platlib as the search path; each is written with its own content and modification time before the compiler starts. The compiler runs with PYTHONHASHSEED=0, with SOURCE_DATE_EPOCH set to the clamp time whatever the environment says, and with options that replace the temporary directory by / in the output. Every .pyc file found afterwards is returned under its name relative to that directory, and if the compiler fails, so does the compilation.",
    ['inputs', 'environments', 'faults'], 'all source trees, environments and outcomes of the compiler',
    'Tests cannot see the random names of temporary directories in compiled files unless they compare runs.',
    ['pkg/python/py_compile.go', BF], [('compiler', 'pkg/python/py_compile.go: ExternalCompiler'), ('sources', BF + ': installToVFS')],
    'dataflow of the command line and environment to the process start; per-iteration obligations over the write and collect loops')

prop('C02', 'Output never depends on the clock beyond SOURCE_DATE_EPOCH',
    "The time of day, random numbers, process, user and host identity reach nothing that the program computes, except as the default of reproducible.Now and in the names of temporary Docker tags. reproducible.Now is the time that SOURCE_DATE_EPOCH gives as a decimal number of seconds, zero and negative ones included, and is the time of day only if that is not a number; it is determined once per process. The dir and gobuild commands clamp the times of the files they pack to exactly that.",
    ['environments', 'schedules'], 'all runs and values of SOURCE_DATE_EPOCH',
    'A test sees one run at one time; dependence on the clock shows only between runs.',
    ['pkg/reproducible/source_date_epoch.go', 'cmd_layer_dir.go', 'cmd_layer_gobuild.go', 'pkg/dockerutil/docker.go', BF],
    [('clock', 'pkg/reproducible/source_date_epoch.go: Now'), ('clamp times', 'cmd_layer_dir.go; cmd_layer_gobuild.go')],
    'whole-program effect analysis (calls and function values of ambient sources) with forward slicing; path-sensitive summary of the clock')

prop('C03', 'Nothing depends on the random order of Go maps',
    "Wherever the program goes over a map or a raw directory listing, what it does for the elements is independent of their order: nothing is written, concatenated or picked in that order, and moves onto coinciding names do not happen in it. A list that is filled in that order is sorted before its order can matter. No list is filled by goroutines in the order in which they finish.",
    ['inputs', 'schedules'], 'all iteration orders of every map',
    'Go randomises map order per run, so tests pass or fail by chance, and mostly pass for small maps.',
    ['pkg/squash/vfs.go', 'pkg/squash/vfs_fs.go', 'pkg/fsutil/fileref.go', BF, 'pkg/python/pypa/recording_installs/recording_installs.go', 'pkg/python/pypa/entry_points/entry_points.go'],
    [('map iterations', 'every range over a map in the repository')],
    'SSA dataflow: taint of iteration variables to order-sensitive sinks in every map loop; dominance of sort calls over uses of lists filled in map order, across functions')

prop('C27', 'A failure is never reported as success',
    "When a call that can fail fails, the function that made it reports failure (or retries, or records the error for its caller): it does not drop the error, return success, or carry on with the next item. The exceptions are end of input, files that may be absent, candidates that are tried in turn, malformed data-requires-python attributes, index links that are not wheels, and closing what was only read. If the command fails, the process exits with a status other than 0.",
    ['inputs', 'crash_points'], 'every failing point: each fallible call in the shipped code, and every path from its failure',
    'Tests hardly ever make an operation fail, and there are hundreds of operations that can.',
    ['main.go', 'pkg/squash/readlayer.go', 'pkg/squash/squash.go', 'pkg/dir/dir.go', 'pkg/fsutil/fileref.go', 'pkg/fsutil/write.go', 'pkg/dockerutil/docker.go', 'pkg/gobuild/gobuild.go', BF],
    [('every call whose last result is an error', 'all shipped packages'), ('exit status', 'main.go main')],
    'SSA path analysis: for each fallible call, all paths from the branch on which its error is not nil, with error-variable states; abstract interpretation of main for the exit status')

prop('C06', 'No layer entry can reach outside the image',
    "An entry of a layer whose cleaned name is absolute or leads out of the root of the image through a parent reference makes reading the layer fail, and no name of an entry is used before this is checked. A layer is not refused for any other reason than such a name or that it cannot be read; in particular names that merely begin with two dots are accepted.",
    ['inputs'], 'all names of all entries of all layers',
    'The tests have no layers with hostile names, and there are unboundedly many spellings of such names.',
    ['pkg/squash/readlayer.go'], [('names of entries', 'pkg/squash/readlayer.go: parseLayer')],
    'per-path analysis of the reading loop: each use of a name of an entry is traced to the tests that hold there; the tests are evaluated as predicates on cleaned names')

prop('C07', 'Layers are applied in order, with whiteouts, opaque marks and replacements',
    "Layers are applied first to last, none skipped, and of each layer first all whiteouts and opaque marks and then all other entries, both in their order in the layer, so that marks act on what lower layers put there. An opaque mark removes everything else in its directory, a whiteout removes the one name it is for, an entry replaces what had its name and its whiteout, and one that is no directory removes everything below it. What was hidden below a replaced file or whiteout stays hidden when a directory takes its name.",
    ['inputs', 'histories'], 'all stacks of layers',
    'Whiteout rules interact across layers; tests sample a handful of stacks of two or three.',
    ['pkg/squash/readlayer.go', 'pkg/squash/squash.go', 'pkg/squash/vfs.go', 'pkg/squash/vfs_fs.go'],
    [('application of entries', 'pkg/squash/vfs.go: Set, getLinks'), ('order', 'pkg/squash/squash.go: Squash; pkg/squash/vfs_fs.go: Load')],
    'path-sensitive symbolic summary of the operation on a node (stores and deletions per kind of name); per-iteration obligations over layers and entries')

prop('C08', 'A squashed layer holds the whole result, unchanged',
    "The squashed layer has, for every node left after applying the layers, one entry with the node's full name and otherwise the header of the entry that it came from, and for regular files exactly that entry's content. Nodes that only exist because something lies below them have no entry of their own; below every node all its children are written, whiteouts first and then by name, so that a directory comes before its contents. The archive is finished before it is used, and the layer that is returned reads from it afresh each time.",
    ['inputs'], 'all stacks of layers',
    'Which header fields survive and which order results depends on the names and kinds in the layers.',
    ['pkg/squash/readlayer.go', 'pkg/squash/squash.go', 'pkg/squash/vfs.go'],
    [('reading content', 'pkg/squash/readlayer.go: parseLayer'), ('writing', 'pkg/squash/vfs.go: WriteTo; pkg/squash/squash.go: Squash')],
    'value numbering from the tar entry that is read to the one that is written; per-iteration obligations over children; symbolic summary of the comparison function; typestate of the writer')

prop('C09', 'Looking up a name always ends, whatever the symbolic links',
    "Resolving a path in an image ends for every set of symbolic links, with an error if there are too many: every link that is followed is counted, against one counter that is carried through all nested lookups of the same path, and exceeding the limit is an error. The root of an image is its own parent, so that going up ends there.",
    ['inputs'], 'all images, whatever symbolic links they have',
    'A loop shows only for particular combinations of links; a test would hang rather than fail.',
    ['pkg/squash/vfs.go', 'pkg/squash/squash.go', 'pkg/squash/vfs_fs.go'],
    [('link counting', 'pkg/squash/vfs.go: getLinks, fsGetLinks'), ('root', 'pkg/squash/squash.go; pkg/squash/vfs_fs.go: Load')],
    'termination argument checked on the call graph: on every cycle and in every loop that follows a link, a counter is increased and tested, and the same counter is passed on')

prop('C10', 'A loaded image is read-only and its file handles can be shared',
    "No operation on a loaded image (Open, Stat, ReadDir, ReadFile, Read, Close and so on) changes the image, not even lookups of missing names or of links that lead nowhere. The position and directory cursor of an open file are only touched while its lock is held, and the lock is released on every path.",
    ['schedules', 'inputs'], 'all interleavings of operations by any number of goroutines on one image or one open file',
    'A data race needs an unlucky schedule, and lookups that create nodes are not visible in single results.',
    ['pkg/squash/vfs_fs.go', 'pkg/squash/vfs.go'],
    [('operations of the view', 'pkg/squash/vfs_fs.go'), ('lookups', 'pkg/squash/vfs.go: fsGet')],
    'effect analysis over the call graph specialised on constant flags; lockset analysis of the fields of file handles')

prop('C11', 'The image view behaves as io/fs requires',
    "Open accepts exactly valid paths, follows links and fails on missing names; Read returns the content of the file from where the last one stopped, io.EOF only once all of it has been read, and fails on directories; after Close every operation fails. Stat and directory entries report the last element of the name, and size, mode, time and kind from the header, with a directory for implicit ones. ReadDir gives the children in order of their names, without whiteouts, at most n at a time for a positive n, resuming where it stopped and with io.EOF only when none are left, and all that are left otherwise.",
    ['inputs', 'histories'], 'all images and sequences of operations on a handle',
    'The tests read a few files in full; windowed ReadDir and partial reads have many boundary cases.',
    ['pkg/squash/vfs_fs.go'],
    [('operations', 'pkg/squash/vfs_fs.go')],
    'path-sensitive symbolic summary of each operation of the handles: results and new cursor as functions of the old one; symbolic summary of the comparison function')

prop('C20', 'Downloads are used only complete and with the checksums that were promised',
    "What a request to a package index delivers is returned or parsed only if it is the complete body of a response with status 200 and each checksum that the fragment of the URL gives for md5, sha1, sha224, sha256, sha384 or sha512 equals that of the body; anything else, including a fragment that cannot be parsed, is an error. A file is requested from the URL of its link, its signature from the same URL without the fragment and with '.asc' appended, and getwheel writes exactly the content of the file whose link text is the given name, or fails.",
    ['inputs', 'environment'], 'all answers of the index server',
    'The tests do not talk to a server; a tampered or cut-off download is an attack or a fault, not a sample.',
    ['pkg/python/pep503/simple_repo_api.go', 'pkg/python/hashlib.go', 'cmd_python_getwheel.go'],
    [('request and verification', 'pkg/python/pep503/simple_repo_api.go: Client.get'), ('algorithms', 'pkg/python: HashlibAlgorithmsGuaranteed'), ('command', 'cmd_python_getwheel.go')],
    'path-sensitive taint analysis from each HTTP call to each use of the body; per-iteration obligations over the checksums of the fragment; value numbering of the digest and of the URL')

prop('C21', 'Listing a package gives every link of its page, and the page of no other package',
    "ListPackageFiles asks for the page of the name in lower case with every run of '-', '_' and '.' replaced by one '-', below the base URL, and refuses exactly the names with other characters than ASCII letters, digits, '.', '-' and '_'. Each <a> element of a page becomes a link with all the text in it, its href resolved against the URL the page was finally read from and all its data- attributes, and none is left out but those whose data-requires-python excludes the client's version of Python. No link is used if the page declares a version of the repository API with a higher major number than 1, no declaration meaning 1.0, and GetSignature does not ask for a signature that the link says there is not, and reports that there is none only then or if a link that says nothing about it leads to status 404.",
    ['inputs', 'environment'], 'all package names and pages',
    'No test reads a page of an index; what is missing from a list is not seen.',
    ['pkg/python/pep503/simple_repo_api.go', 'pkg/python/pep629/simple_api_versions.go', 'pkg/python/pypa/simple_repo_api/pypa_repo_api.go'],
    [('listing', 'pkg/python/pep503/simple_repo_api.go: ListPackageFiles, getHTML5Index, visitHTML'), ('version', 'pkg/python/pep629/simple_api_versions.go: GetVersion, HTMLVersionCheck'), ('signature', 'pkg/python/pep503/simple_repo_api.go: GetSignature')],
    'per-iteration obligations over characters, links and attributes; evaluation of character classes on all ASCII characters from path conditions; value numbering of URLs and link fields; path-sensitive summary of the version check')

prop('C23', 'Versions are put in the one total order that PEP 440 defines',
    "The sign of a.Cmp(b) of public versions is that of the first of these to differ: epoch, release number padded with zeros, kind of pre-release (development release of a plain release, then a, b, rc, then none; alternative spellings equal), its number, post-release (none first), development release (none last). Versions with a local part are ordered by that, then by the segments of the local parts: fewer first, text before numbers, text by bytes and numbers by value; versions that differ in none of these compare as 0. Comparing versions that can be parsed does not panic.",
    ['inputs'], 'all pairs of versions',
    'The tests sort some lists; that an order is total and consistent is a statement about all pairs.',
    ['pkg/python/pep440/01_version_scheme.go'],
    [('order', 'pkg/python/pep440/01_version_scheme.go: PublicVersion.Cmp, LocalVersion.Cmp')],
    'path-sensitive relational analysis: every path of a comparison is decided by the first key on which its conditions say that the versions differ; inductive obligation on the loops over segments')

prop('C24', 'A version specifier matches exactly the versions that its clauses name',
    "Each operator of PEP 440 and of PEP 345 matches as defined in terms of the order of versions, equality, and equality of a prefix with the suffixes that the definition allows, a specifier matches if all its clauses do, and HaveRequiredPython answers with that or with the error of the specifier. Text is read as one clause for each part between commas, with the operator it begins with and the version that follows, and '.*' after it asks for equality of a prefix; only an unreadable version, an unknown operator or '===', a local part with other than strict (in)equality, '~=' with one segment and a development release before '.*' are refused, and PEP 345 has neither '~=' nor '.*' and reads no operator as '=='. A PEP 440 clause is printed as its operator, version and '.*' if it has one.",
    ['inputs'], 'all specifiers and versions',
    'Which releases of a dependency are acceptable is decided by corner cases that a list of examples cannot exhaust.',
    ['pkg/python/pep440/02_version_specifiers.go', 'pkg/python/pep345/metadata.go'],
    [('matching', 'pkg/python/pep440/02_version_specifiers.go: SpecifierClause.Match, Specifier.Match'), ('reading and printing', 'pkg/python/pep440/02_version_specifiers.go: ParseSpecifier, SpecifierClause.String'), ('PEP 345', 'pkg/python/pep345/metadata.go')],
    'path-sensitive analysis of each operator: the result of every path is compared, in three-valued logic, with the definition evaluated on the conditions of the path; per-iteration obligations over clauses and segments; value numbering of the text that is parsed')

prop('C22', 'The highest acceptable version is selected, and the preferred file of it',
    "Specifier.Select returns the highest of the given versions that match and are allowed, else the highest that match, else none; pre-releases that are not listed are not allowed, several exclusions allow what all of them allow, and the yanked exclusion refuses exactly the versions (as printed) of the files in its list whose links have the attribute data-yanked and whose names are valid. SelectWheel considers exactly the links of the package with valid file names and supported tags, selects from their versions with pre-releases and versions of yanked files excluded, and returns a file of the selected version whose tag is most preferred, or an error.",
    ['inputs'], 'all lists of versions and all index pages',
    'Which release is installed depends on the order and mixture of versions, exclusions and tags on an index page.',
    ['pkg/python/pep440/02_version_specifiers.go', 'pkg/python/pep592/yank.go', 'pkg/python/pypa/simple_repo_api/pypa_repo_api.go'],
    [('versions', 'pkg/python/pep440/02_version_specifiers.go: Specifier.Select, ExcludePreReleases, MultiExcluder'), ('yanked files', 'pkg/python/pep592/yank.go'), ('files', 'pkg/python/pypa/simple_repo_api/pypa_repo_api.go: Client.SelectWheel')],
    'inductive obligations on the loops: each iteration replaces what a variable holds exactly when the element matches, belongs to its class and is higher (or more preferred), by path-sensitive analysis; the results are then the right ones of these variables')

prop('C38', 'Compatibility tags: compressed sets, matching and preference follow PEP 425',
    "Tag.Decompress yields every combination of the dot-separated parts of a tag's three fields and nothing else, Intersect tells whether some expanded tag of one list equals some expanded tag of the other, and Installer.Supports tells whether the installer's list intersects the tag. Installer.Preference is one more than the position of the first entry of the list that intersects the tag, or one more than the length of the list if none does; a tag is written as its three fields joined by dashes, and exactly the texts of three dash-separated parts are read as tags.",
    ['inputs'], 'all tags and lists of tags',
    'A wheel that is wrongly taken to be supported does not work once installed, and the matching ranges over products of lists.',
    ['pkg/python/pep425/tags.go'],
    [('tags', 'pkg/python/pep425/tags.go: Tag, Intersect, Installer')],
    'path-sensitive analysis of the loop nests: every iteration of each loop either decides the pair (or makes the combination) at hand or runs the next loop of the nest to its end, and no loop is left early without the answer; the values compared, made and returned are checked as terms')

prop('C29', 'image build puts the named layers on the base image and sets only what is asked',
    "ocibuild image build writes to its standard output one image: the image of the --base file (or an empty one) with the layers of the files that are named appended, each once and in order, tagged as --tag says or not at all. Its config is that of the base image, except that --config.Env.clear drops the environment before --config.Env.append adds to it, and that the entrypoint, the command and the working directory are replaced exactly if their flags are given; opening a layer or image file (fsutil.OpenLayer, OpenImage, PathOpener) gives all of that file, each time that it is read.",
    ['inputs'], 'all base images, lists of layers and combinations of flags',
    'The flags combine freely with what the base image says, so tests sample only a few of the results, and a layer in the wrong place changes what the image holds.',
    ['cmd_image_build.go', 'pkg/fsutil/open.go'],
    [('command', 'cmd_image_build.go'), ('files', 'pkg/fsutil/open.go: PathOpener, OpenLayer, OpenImage')],
    'path-sensitive analysis of the command with the flags bound to it by its init function: at the call that writes the image, the terms for the image, its layers, its tag and each field of its config are compared with what the facts about the flags ask for, and an inductive obligation on the loop over the arguments')

prop('C30', 'layer gobuild builds for the target and replaces a layer only if it differs',
    "gobuild.LayerFromGo runs go build once, with -trimpath, for all the packages that are named, in the environment of the caller with GOOS=linux and GOARCH=amd64 and with nothing of what it prints reaching the standard output, and its layer is that of the fresh directory that was built to, below usr/local/bin, owned by root and clamped to the given time. With --output, ocibuild layer gobuild leaves an existing file alone exactly if it holds the same layer except for timestamps, fails if that file can not be opened for any reason but that it does not exist, and else replaces it by a file that is empty at first; success means that the whole layer was written there, or to the standard output without --output.",
    ['inputs', 'fault_sequences'], 'all packages, environments, output files and failures of what is called',
    'Tests have neither a Go tool chain with network nor every kind of old output file, so the branches on what is there, and the exact command, are not exercised.',
    ['pkg/gobuild/gobuild.go','cmd_layer_gobuild.go','pkg/fsutil/write.go'],
    [('build', 'pkg/gobuild/gobuild.go: LayerFromGo'), ('command', 'cmd_layer_gobuild.go'), ('writing', 'pkg/fsutil/write.go: WriteLayer')],
    'path-sensitive analysis: the terms for the arguments, environment and output of the command at the call that runs it and for the prefix, owner and time of the layer, and a typestate of the output file (absent, differing, equal, removed, written) over all paths of the command')

prop('C31', 'Layers compare equal exactly if they differ in nothing but timestamps',
    "fsutil.LayersEqualExceptTimestamps reports that two layers are equal only after both have been read to their end, each entry of one having been found to have the same header as the entry at the same place in the other, in every field but the modification, access and change time, and the same content, however the contents are split up when read. It reports that they differ only if a header (in another field than these), a content or the number of entries does; that reading fails before this is known is an error.",
    ['inputs', 'fault_sequences'], 'all pairs of layers and all ways in which reading them fails or is split up',
    'Tests compare a few small layers; a field that is not compared, a chunk that is left out or an error taken for the end of a layer needs particular layers to show.',
    ['pkg/fsutil/diff.go'],
    [('comparison', 'pkg/fsutil/diff.go: LayersEqualExceptTimestamps')],
    'typestate analysis over all paths of the comparison (entries at hand, their headers and contents known to be equal, ends reached) with inductive obligations at the back edges of the loops over entries and over chunks, and a comparison of the two header terms field by field')

prop('C28', 'Files, temporary directories, processes and Docker images are released',
    "Whatever path a call takes until it returns, errors of each step included, everything that was opened for it (files, contents of wheels, layers and file references, HTTP responses) is closed or part of what is returned, each temporary directory is removed, and each process that was started is waited for, after the end of its input. dockerutil.WithImage removes the image that it may have loaded into Docker, and only that, once it is loaded and the function that uses it has returned.",
    ['fault_sequences', 'inputs'], 'all combinations of failing steps',
    'Tests rarely let a step fail between an acquisition and its release, and what is left behind does not show in what is returned.',
    ['pkg/dir/dir.go', 'pkg/fsutil', 'pkg/gobuild/gobuild.go', 'pkg/python/py_compile.go', 'pkg/dockerutil/docker.go', 'pkg/squash/readlayer.go', 'pkg/python/pypa', 'pkg/python/pep503/simple_repo_api.go'],
    [('files', 'all functions that call something that returns a value with a Close method'), ('directories', 'pkg/gobuild/gobuild.go, pkg/python/py_compile.go'), ('Docker', 'pkg/dockerutil/docker.go: WithImage')],
    'typestate analysis of each function that acquires a resource: over all its paths, with the functions it calls and its deferred calls included, what is held at an exit or when a loop goes on must have been released or be reachable from the results')

prop('C26', 'layer dir, layer squash, layer wheel and getwheel do exactly what they are told',
    "ocibuild layer dir makes the layer of the directory that is named, below --prefix exactly if it is given, with the owners that the --prefix and --chown flags say (without them, root for the prefix and the owners of the files, except that --chown-gname is root) and for the time of the build; layer squash squashes the layers of all named files, each once and in order; layer wheel installs the named wheel for exactly the platform and compiler of the platform file, of which unknown fields are an error, with its scripts made and then recorded, and all of several hooks are run in order until one fails. python getwheel looks at every file of the named wheel's package on the index that is asked for before it says that there is no such file. Success means that the result was written whole and once to the standard output, where no messages go.",
    ['inputs', 'configurations', 'fault_sequences'], 'all arguments, flags, platform files and failures of what is called',
    'The commands themselves have no tests, and which combination of flags, arguments and failures goes wrong cannot be sampled.',
    ['cmd_layer_dir.go','cmd_layer_squash.go','cmd_layer_wheel.go','cmd_python_getwheel.go','pkg/python/pypa/bdist/misc.go','pkg/fsutil/write.go'],
    [('layer dir', 'cmd_layer_dir.go'), ('layer squash', 'cmd_layer_squash.go'), ('layer wheel', 'cmd_layer_wheel.go; pkg/python/pypa/bdist/misc.go: PostInstallHooks'), ('getwheel', 'cmd_python_getwheel.go'), ('writing', 'pkg/fsutil/write.go: WriteLayer')],
    'path-sensitive analysis of each command with its flags bound by its init function: the terms of all arguments at the call that makes the layer and at the one that writes it; per-iteration obligations of the loops over arguments, links and hooks; an effect rule for the standard output over the whole program')

prop('C33', 'python inspect reports the Python it is asked about, readably for layer wheel',
    "Without --imagefile, ocibuild python inspect reports the shebangs of the interpreter that is named on the host, and what the console one of them answers when it is run; with it, the shebangs found in that image and what that interpreter answers as the entry point of that very image, and the byte code compiler is one of the host whose magic number is the same. The owner is that of the first of purelib, platlib, headers, scripts and data that exists in what is inspected. All of it is written once to the standard output, success means that it was, and every key that is written is one that ocibuild layer wheel reads for the same field.",
    ['inputs', 'fault_sequences'], 'all interpreters, images, answers and failures of what is called',
    'No test runs the command: it needs a Docker daemon, or a Python with packaging, and the fall-backs depend on what is installed.',
    ['cmd_python_inspect.go','cmd_layer_wheel.go','pkg/python/platform.go'],
    [('command', 'cmd_python_inspect.go'), ('reader', 'cmd_layer_wheel.go: the platform file')],
    'path-sensitive analysis of the command: the provenance of every field of the platform at the call that encodes it, the directories whose absence each path has established, and the equality of magic numbers that each path has tested; the keys of the encoder and of the decoder are computed from the types and tags of the two structs and compared')
prop('C40', 'inspecting an image finds what a container of it would find, and its owner',
    "ImageFS.Stat looks at absolute paths only, at the cleaned path in all layers of the image taken together, and NativeFS.Stat at the file itself; the owner either returns is that of the file. ImageFS.LookPath takes a name with a slash as a path relative to the working directory of the image and looks for any other in the directories of its PATH in their order until one has a file that somebody may execute, and fails with an fs.PathError for the name only if there is none. Shebangs returns programs that were found, the console one without and the graphical one with the w if there are such siblings, and Dynamic exactly what the command wrote, decoded, for a script that asks for every field.",
    ['inputs', 'fault_sequences'], 'all images, names, PATHs, file modes and failures of what is called',
    'There are no tests of the package; programs with odd modes, directories in the way, relative PATH entries and pythonw siblings are each rare, and combinations of them more so.',
    ['pkg/python/pyinspect/fs_image.go','pkg/python/pyinspect/fs_native.go','pkg/python/pyinspect/pyinspect.go'],
    [('image', 'pkg/python/pyinspect/fs_image.go: ImageFS'), ('host', 'pkg/python/pyinspect/fs_native.go: NativeFS.Stat'), ('interpreter', 'pkg/python/pyinspect/pyinspect.go: Shebangs, Dynamic')],
    'path-sensitive analysis: the provenance of what is looked at and of every owner field, an automaton of what each path has established about a program (there, not a directory, executable), a typestate of the search (each directory looked at in turn and left only after a failed test), and the terms of the command whose output is decoded')

prop('C37', 'the command line: usage errors, failures, arguments and flags are never lost',
    "A usage error (a flag, an argument or a word that is no subcommand) ends ocibuild with status 2 and a message on the standard error, a command that fails is reported there with a status that is not 0, and a command that only has subcommands fails with its help on the standard error when it is run by itself. Every command can be reached from the root, checks its arguments and is one that can report failures; the arguments it accepts are those of its usage line, all of them are used, and none is used that need not be there. Every flag has a variable of its own, which the command uses.",
    ['inputs', 'configurations'], 'all command lines, commands and flags',
    'The tests call the functions behind the commands, not the commands; a wrong status, an argument that is accepted and ignored or a flag without effect is seen by scripts only.',
    ['main.go','pkg/cliutil/cobra.go','cmd_image_build.go','cmd_layer_dir.go','cmd_layer_gobuild.go','cmd_layer_squash.go','cmd_layer_wheel.go','cmd_python_getwheel.go','cmd_python_inspect.go'],
    [('program', 'main.go: main, init'), ('helpers', 'pkg/cliutil/cobra.go'), ('commands', 'cmd_*.go: init')],
    'path-sensitive analysis of main, of the init functions (the tree of commands that they build, with the validator, the flags and the function of each) and of the helpers; the numbers of arguments that validator and usage line allow are compared with the indices and loops that the command uses them with, and the variables of flags with the loads of the commands')

prop('C25', 'versions and wheel file names are read and written without losing anything',
    "ParseVersion and ParseFilename accept exactly what the grammars of PEP 440 and PEP 427 allow, except numbers that are out of range, and every part of the result is what is written, in normal form, and is there exactly if it is written. String writes every part of a version, and only those. The version of an interpreter is its major, minor and micro number with the pre-release that its release level and serial say, and other release levels are refused.",
    ['inputs'], 'all strings, versions and interpreters',
    'Versions and file names come from the index and are compared, grouped by their text and matched with specifiers: a segment, suffix or build number that is lost makes two versions the same, and tests only have common ones.',
    ['pkg/python/pep440/01_version_scheme.go','pkg/python/pep440/03_tail.go','pkg/python/pypa/bdist/binary_distribution_format.go','pkg/python/platform.go'],
    [('reading', 'pkg/python/pep440: ParseVersion; pkg/python/pypa/bdist: ParseFilename'), ('writing', 'pkg/python/pep440: PublicVersion.String, LocalVersion.String'), ('interpreter', 'pkg/python/platform.go: VersionInfo.PEP440')],
    'equivalence of the regular expression with the grammar, as automata over characters and the bounds of groups; path-sensitive analysis of what is made of each group, with per-iteration obligations over segments; an automaton over the texts and values that String writes')

prop('C41', 'file modes and ZIP attributes are translated bit for bit',
    "StatMode.ToGo and ModeFromGo keep the nine permission bits, the set user ID, set group ID and sticky bits, and the type of the file: each of the seven types becomes its counterpart, other types of StatMode become irregular, and nothing else is set. IsDir and IsRegular hold exactly for that type. ZIPExternalAttributes.Raw and ParseZIPExternalAttributes put the UNIX mode into the upper 16 bits, the MS-DOS attributes into the lowest 8 and keep the 8 bits between them, and ToDOS keeps exactly the read-only, hidden, system, directory and archive bits.",
    ['inputs'], 'all modes and attributes',
    'The mode of every file of an installed wheel goes through these functions: a wrong bit makes a file executable, set-user-ID or a directory, or loses that, and tests only see the modes of the wheels at hand.',
    ['pkg/python/stat.go','pkg/python/zip.go'],
    [('modes', 'pkg/python/stat.go: StatMode.ToGo, ModeFromGo, StatMode.IsDir, StatMode.IsRegular'), ('attributes', 'pkg/python/zip.go: ZIPExternalAttributes.Raw, ParseZIPExternalAttributes; pkg/python/stat.go: StatFileAttribute.ToDOS')],
    'known-bits analysis: for each path, the conditions and the result as vectors of bits, each a constant or a bit of the input, for every type of file and combination of special bits')

prop('C42', 'a wheel is only installed for a platform that is complete',
    "Platform.Init accepts a platform exactly if it has at least one of the two shebangs and all five directories of its scheme are absolute. It sets a missing shebang to the other one and changes nothing else. InstallWheel succeeds, and the hook of CreateScripts makes a script, only for a platform that Platform.Init would accept.",
    ['configurations'], 'all platforms',
    'The platform is written by hand or taken from an image: tests use complete ones, and with an incomplete one files land in the wrong place or scripts have no interpreter.',
    ['pkg/python/platform.go','pkg/python/pypa/bdist/misc.go','pkg/python/pypa/entry_points/entry_points.go'],
    [('validation', 'pkg/python/platform.go: Platform.Init'), ('use', 'pkg/python/pypa/bdist: InstallWheel; pkg/python/pypa/entry_points: CreateScripts')],
    'path-sensitive analysis: what the conditions of every path that ends in success say of each field of the platform, and what is stored in its fields')

# --- more properties above this line ---

# ---------------------------------------------------------------------------
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": [
    {"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
     "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "No hooks in /repo: the checks only read the source. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
dp = os.path.join(here, "DESIGN.md")
if os.path.exists(dp):
    d = open(dp).read()
    a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
    t = ""
    for p in P:
        t += "**%s %s.** " % (p["id"], p["title"])
        if p["na"]:
            t += "Not applicable: " + p["na"]
        else:
            t += (p["design"] or "Decided by: " + p["technique"] + ".")
        t += "\n\n"
    i, j = d.index(a) + len(a), d.index(b)
    open(dp, "w").write(d[:i] + "\n" + t + d[j:])
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
