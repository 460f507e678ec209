#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Squashing layers preserves the resulting filesystem on every base image",
 "For every base filesystem B and every sequence of layers L1..Ln, unpacking the single layer that squashing L1..Ln produces on top of B yields the same filesystem as unpacking L1..Ln in order on top of B. This includes whiteouts (which only hide content of lower layers, wherever in the layer they appear), opaque whiteouts, directories replaced by non-directories and back, implied parent directories, and entries addressed through a symlinked directory (including absolute, upward-escaping, chained and dangling symlink targets).",
 ["inputs", "histories"], "all layer sequences (any number of layers, entry orders, entry types, markers, symlinks inside the stack) and all base filesystems below them (base symlinks not traversed by the layers)",
 "The 10 table cases pin single outputs for 1-3 layer stacks with one or two paths and no base; equivalence quantifies over every base and every sequence of set/whiteout/opaque/type-change steps, and the failing sequences need 2-4 steps on the same path.",
 ["pkg/squash/squash.go", "pkg/squash/readlayer.go", "pkg/squash/vfs.go"],
 [("two-phase layer application (markers, then files)", "pkg/squash/squash.go loadLayers"), ("explicit opaque marker when a non-directory becomes a directory", "pkg/squash/vfs.go Set/Get"), ("symlink resolution of parents", "pkg/squash/vfs.go fsGet/Get")],
 [("vfs tree", "entries and markers accumulated so far", "pkg/squash/vfs.go fsfile")], ["output tar of squash.Squash", "ocibuild layer squash stdout"])

prop("C02", "A squashed layer is canonical and carries every attribute unchanged",
 "Every entry of a squashed layer other than a whiteout marker is the last version of that path in the inputs (a hard link being a name of the file it links to) with type, content, link target, mode, owner, timestamps, device numbers and extended attributes exactly as in the input layer, and every path appears at most once. Names are relative, clean and inside the image root, directory names end in '/', a directory precedes its contents, whiteout markers precede all their siblings and siblings are in byte order, so equal inputs give byte-identical output. An input entry that lies outside the image root makes the squash fail.",
 ["inputs"], "all layer contents and headers (long names, PAX records, special files, large bodies, uncleaned names)",
 "Tests only compare name, type and link name of empty files; no test looks at content, modes, owners, times, xattrs, nor at rejection of escaping names.",
 ["pkg/squash/readlayer.go", "pkg/squash/vfs.go", "pkg/squash/squash.go"],
 [("path.Clean and root check", "pkg/squash/readlayer.go parseLayer"), ("ordered tree walk", "pkg/squash/vfs.go WriteTo")], (), ["output tar of squash.Squash"])

prop("C03", "The layer filesystem view behaves as a read-only file system",
 "The file system obtained by loading layers shows exactly the merged content of those layers: opening, stating and listing any path follows symlinks (relative, absolute, through directories, loops reported as errors) as the merged image would, whiteouts and the files they hide are never visible, and a missing path reports 'not exist'. For any sequence of calls on a handle, reads return the content exactly once in order and then end-of-file, paginated listings return every entry exactly once in name order, and any read, list or second close after close fails with the 'closed' error. Several goroutines may use the file system at once, each seeing what it would see alone.",
 ["inputs", "histories", "schedules"], "all layer stacks, all paths, and all interleavings of Open/Stat/Read/ReadDir/Close on several handles with any buffer and page sizes",
 "The only test runs fstest.TestFS on one fixed 9-entry layer without whiteouts or multi-layer content.",
 ["pkg/squash/vfs_fs.go", "pkg/squash/vfs.go", "pkg/squash/squash.go"],
 [("handle position and closed flag", "pkg/squash/vfs_fs.go fsfileReader"), ("symlink following", "pkg/squash/vfs.go Get"), ("marker filter in listings", "pkg/squash/vfs_fs.go ReadDir")],
 [("pos/closed/dirents", "handle state", "pkg/squash/vfs_fs.go fsfileReader")], ["fs.FS returned by squash.Load"])

prop("C04", "Adversarial symlinks and paths never hang, crash or escape",
 "For every layer stack, however malicious its symlinks and names (self-referential, mutually recursive, looping through sub-paths, escaping above the root), squashing and loading terminate with a result or an error; they never crash, hang or produce an entry outside the image root. The same holds for every path lookup on a loaded file system.",
 ["inputs"], "all layer stacks over arbitrary symlink graphs and all lookups on them",
 "No test contains a symlink loop; non-termination depends on the shape of the symlink graph.",
 ["pkg/squash/vfs.go", "pkg/squash/vfs_fs.go", "pkg/squash/readlayer.go"],
 [("loop detection", "pkg/squash/vfs.go Get")], (), ["squash.Squash", "squash.Load and fs.FS.Open"])

prop("C05", "A wheel whose contents do not match its RECORD is never installed",
 "Installing a wheel succeeds only if every file of the archive except RECORD and its signature files RECORD.jws and RECORD.p7s is listed in RECORD with a size and a sha256, sha384 or sha512 digest that match its bytes (only RECORD's own row may lack them), every row has three columns and names a file that is in the archive, no file is in the archive twice, exactly one dist-info directory exists, and WHEEL declares a format whose major version is not greater than 1; the installed bytes are the verified ones. Any modification of a member's bytes or of the set of members without a matching change of RECORD, and any change of RECORD to a wrong, missing or weak digest or size, yields an error and no layer.",
 ["inputs", "fault_sequences"], "all wheels and all corruptions of them (bit flips, added/removed/duplicated/renamed members, edited RECORD rows, algorithm downgrades, version bumps)",
 "Offline tests never install a wheel at all (the only ones need pypi.org); tampering is never tested.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/hashlib.go", "pkg/python/pypa/bdist/ioutil.go"],
 [("integrityCheck", "pkg/python/pypa/bdist/binary_distribution_format.go"), ("allow-list of hash algorithms", "pkg/python/hashlib.go")], (), ["bdist.InstallWheel result", "ocibuild layer wheel exit status"])

prop("C06", "Every wheel file is installed at its scheme path with exact content",
 "In the layer for a valid wheel, every file of the archive appears exactly once (RECORD and its signatures aside): members of the archive root under purelib or platlib according to Root-Is-Purelib, members of NAME-VERSION.data/KEY/ under the platform's directory for KEY (purelib, platlib, headers, scripts, data), content byte-identical except that a leading '#!python' or '#!pythonw' of a script is replaced by '#!' and the platform's console or graphical interpreter. Rewritten scripts and regular files that are executable in the archive have mode 0755, other files 0644, directories 0755; all have the platform's owner; timestamps are those of the archive (or the requested minimum) clamped to the requested time; every .py file is compiled from its installed content. An unknown data key, two files for one place, a file where a directory is needed, or a data key that is a file is an error.",
 ["inputs", "configurations"], "all valid wheels, platforms (schemes, shebangs, owners) and clamp times",
 "Only two network-only tests compare against pip; offline nothing is checked.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/pypa/bdist/misc.go", "pkg/python/zip.go", "pkg/python/platform.go"],
 [("spread of .data", "binary_distribution_format.go installToVFS"), ("rewritePython", "binary_distribution_format.go"), ("LayerFromFileReferences", "pkg/fsutil/fileref.go")], (), ["bdist.InstallWheel layer"])

prop("C07", "Wheel installation never writes outside its scheme directories",
 "Whatever the names of a wheel's members, its distribution name or its entry points, a successful installation yields only layer entries inside the platform's scheme directories (and the directories leading to them) with clean relative names, one per place, and creates or modifies no file on the host outside its own temporary directory, which it removes. A member whose name is absolute or leads out of the archive, and an entry point whose name is empty, '.', '..' or contains '/', make the installation fail.",
 ["inputs"], "all wheel member names (upward, absolute, backslash, dot segments, duplicate spellings), platforms and entry-point names",
 "No test has a hostile member name.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/py_compile.go", "pkg/fsutil/fileref.go"],
 [("destination path construction", "binary_distribution_format.go installToVFS"), ("temporary directory of the compiler", "pkg/python/py_compile.go")], (), ["bdist.InstallWheel layer", "host file system"])

prop("C08", "The installed RECORD and metadata describe exactly what was installed",
 "After installation with the corresponding hooks the distribution's dist-info directory contains RECORD, INSTALLER and, when asked for, REQUESTED and direct_url.json with the requested content, and none of them otherwise unless the wheel ships it. RECORD lists exactly the files installed for the distribution (including generated scripts, compiled files and metadata) once each, with a path that resolves from the installation directory to the installed file and, for every file that was not rewritten or compiled during installation, the digest of the requested algorithm (sha256 by default) and the size of the installed bytes; RECORD itself has neither, and signature files are removed. A digest algorithm that does not exist is an error.",
 ["inputs", "configurations"], "all valid wheels, platforms and hook configurations",
 "No offline test installs a wheel; the online test compares two packages with pip.",
 ["pkg/python/pypa/recording_installs/recording_installs.go", "pkg/python/pep376/requested.go", "pkg/python/pypa/direct_url/direct_url.go", "pkg/python/pypa/bdist/binary_distribution_format.go"],
 [("Record hook", "recording_installs.go"), ("RecordRequested", "pep376/requested.go"), ("direct_url Record", "direct_url.go")], (), ["dist-info files of the installed layer"])

prop("C09", "Entry points become scripts that run the declared callable",
 "For every console or graphical entry point declared by a wheel, installation creates one executable script of that name in the scripts directory, with the platform's console or graphical shebang, that imports the declared module and calls exactly the declared (possibly dotted) attribute without arguments, exiting with its result; no other script is created. The declarations are read as Python's configparser reads them ('=' as the delimiter, '#' and ';' comments, continuation lines, case-sensitive names, duplicates are errors), and a malformed file or declaration is an error.",
 ["inputs"], "all entry_points.txt files (sections, comments, continuation lines, case, dotted attributes, extras) and platforms",
 "No offline test generates a script.",
 ["pkg/python/pypa/entry_points/entry_points.go", "pkg/python/configparser.go"],
 [("CreateScripts template", "entry_points.go"), ("config parser", "pkg/python/configparser.go")], (), ["scripts in the installed layer", "pkg/python.ConfigParser"])

prop("C10", "Version parsing is faithful and version order is the PEP 440 total order",
 "A string is accepted as a version exactly when it is a PEP 440 version (any spelling variant, surrounding space, 'v' prefix, separators, implicit numbers; a number of more than 18 digits outside the local label may be rejected), normalizing it gives the canonical PEP 440 spelling, and parsing that spelling again gives an equal version. Comparison is a total order agreeing with PEP 440 on epochs, zero-padded releases, development, alpha/beta/candidate, final, post and local versions, and agrees between equal spellings. The same holds for public versions (those without a local label) alone.",
 ["inputs"], "all strings and all pairs/triples of versions",
 "Tests pin about 100 spellings and one sorted list; antisymmetry, transitivity and agreement under spelling variants quantify over all pairs and triples.",
 ["pkg/python/pep440/01_version_scheme.go", "pkg/python/pep440/03_tail.go"],
 [("ParseVersion regex and normalization", "03_tail.go"), ("Version.Cmp", "01_version_scheme.go")], (), ["pep440.ParseVersion, Version.String, Version.Cmp"])

prop("C11", "Version specifiers accept exactly the versions PEP 440 says",
 "A specifier string is parsed into exactly the clauses it spells (or rejected), printing it and parsing it again gives an equivalent specifier, and a version matches exactly when it satisfies every clause: '~=', '==', '!=' (with zero padding, '.*' prefixes and local versions), '<=', '>=' and '<' (by order, ignoring the candidate's local label), '>' (which also excludes local versions and post-releases of the given version unless it names one); '===' is not supported and rejected.",
 ["inputs"], "all specifier strings and all candidate versions",
 "Tests pin about 60 clause/version pairs and never print or re-parse a specifier.",
 ["pkg/python/pep440/02_version_specifiers.go"],
 [("ParseSpecifier / parseSpecifierClause", "02_version_specifiers.go"), ("match functions", "02_version_specifiers.go"), ("String", "02_version_specifiers.go")], (), ["pep440.ParseSpecifier, Specifier.Match, Specifier.String"])

prop("C12", "Version and wheel selection picks the best acceptable candidate",
 "Selecting from a package index returns a wheel whose version satisfies the specifier and whose tags the platform supports, with the highest such version; among the compatible files of that version an unyanked one if there is one, then the one with the platform's most preferred tag, then the highest build tag. Pre-releases, and versions of which every compatible file is yanked, are chosen only if no other version satisfies the specifier. The result does not depend on the order in which the index lists its files (except among files that tie in all of these), and is absent exactly when no acceptable file exists.",
 ["inputs", "configurations"], "all index contents (versions, tags, build tags, yanks, requires-python, hashes), orders, specifiers and platforms",
 "The only test of selection needs pypi.org; the interesting cases combine yanks, pre-releases, tags and builds.",
 ["pkg/python/pypa/simple_repo_api/pypa_repo_api.go", "pkg/python/pep440/02_version_specifiers.go", "pkg/python/pep592/yank.go", "pkg/python/pep425/tags.go"],
 [("SelectWheel sort", "pypa_repo_api.go"), ("Specifier.Select and exclusion behaviours", "02_version_specifiers.go"), ("yank exclusion", "pep592/yank.go")], (), ["simple_repo_api.Client.SelectWheel against a local index", "pep440.Specifier.Select"])

prop("C13", "Requires-Python constraints decide exactly as PEP 345 says",
 "A Requires-Python / PEP 345 version specifier is parsed into its comma-separated comparisons (a bare version meaning equality), and a version is accepted exactly when every comparison holds: equality and inequality compare only as many release components as the specifier gives and do not equate pre-, post- or development releases that it does not name, '<' also excludes pre-releases of the version it names, '<=', '>', '>=' compare by order; malformed specifiers are rejected. An interpreter's version is the one made of its major, minor and micro number and, unless it is final, its level and serial; a level that does not exist is refused.",
 ["inputs"], "all specifier strings and versions",
 "Tests pin some 30 pairs.",
 ["pkg/python/pep345/metadata.go", "pkg/python/platform.go"],
 [("VersionSpecifier parser and match", "pep345/metadata.go")], (), ["pep345.ParseVersionSpecifier, VersionSpecifier.Match"])

prop("C14", "Downloads are delivered only when complete and matching their digest",
 "Whatever an index server returns, a file whose link carries a digest (md5, sha1 or sha2 family; unknown algorithms are ignored, a fragment that does not parse is an error) is delivered only if the received bytes have that digest, a non-success status or transport failure is an error, and links are resolved against the page's final URL. An index page that declares an incompatible API major version is rejected, files whose requires-python excludes the configured interpreter are not offered when a project is looked up by name (one that does not parse is ignored), only anchors of the page are offered, each with its exact text, yank and requires-python annotations, and a signature is fetched from the file's URL with '.asc' appended.",
 ["inputs", "fault_sequences"], "all server responses (statuses, truncations, corruptions, redirects, HTML shapes) and digests",
 "No offline test performs a request.",
 ["pkg/python/pep503/simple_repo_api.go", "pkg/python/pep629/simple_api_versions.go", "pkg/python/pep592/yank.go", "cmd_python_getwheel.go"],
 [("digest check", "pep503/simple_repo_api.go"), ("HTML hook for the API version", "pep629")], (), ["pep503 client against a local HTTP server", "ocibuild python getwheel"])

prop("C15", "Layers built from file sets are reproducible",
 "The bytes of a layer generated from a set of files with distinct names depend only on that set and the clamp time: not on the order the files are given in, map iteration, the time of day, the umask or repetition; the same holds for the layer of a wheel. Entries are sorted name component by name component with every directory before its contents, and no timestamp is later than the clamp time (to the second) while earlier ones are preserved; the clamp time comes from SOURCE_DATE_EPOCH when that is set. A file that cannot be read, or that is not as long as it says, is an error and gives no layer.",
 ["inputs", "schedules"], "all file sets, orders of presentation, clamp times and values of SOURCE_DATE_EPOCH; repeated runs (map iteration orders)",
 "No test builds the same layer twice or in another order.",
 ["pkg/fsutil/fileref.go", "pkg/reproducible/source_date_epoch.go", "pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/dir/dir.go"],
 [("part-wise sort", "fsutil/fileref.go"), ("clamp", "fsutil/fileref.go, dir/dir.go"), ("SOURCE_DATE_EPOCH", "reproducible/source_date_epoch.go")], (), ["fsutil.LayerFromFileReferences", "reproducible.Now", "ocibuild layer dir / wheel / squash run twice"])

prop("C16", "A directory layer mirrors the directory",
 "The layer built from a directory contains exactly the files, directories and symlinks below it with their content, mode and link target, each once, below the requested prefix whose own components appear first as directories, with hard links to the same file represented as links to its first occurrence, owners replaced by the requested ones when requested and kept otherwise, and timestamps clamped. Something that is not a directory, or a prefix outside the image root, is an error.",
 ["inputs", "configurations"], "all directory trees, prefixes and ownership options",
 "There is no test for directory layers.",
 ["pkg/dir/dir.go", "cmd_layer_dir.go", "pkg/gobuild/gobuild.go"],
 [("LayerFromDir walk", "pkg/dir/dir.go")], (), ["ocibuild layer dir stdout", "dir.LayerFromDir"])

prop("C17", "An output file is replaced only by a successful, different build",
 "Two layers are equal up to timestamps exactly when they have the same sequence of entries with equal headers (ignoring modification, access and change times) and equal bytes. Building a Go layer into a file leaves that file untouched if the build fails at any point or if the new layer differs from it only in timestamps, and otherwise leaves the complete new layer in it; no temporary files remain in any case.",
 ["inputs", "histories", "fault_sequences"], "all pairs of layers, and all histories of builds (success, compile failure, unchanged, changed) over existing, missing or invalid output files",
 "No test compares layers or runs the command.",
 ["pkg/fsutil/diff.go", "cmd_layer_gobuild.go", "pkg/gobuild/gobuild.go"],
 [("LayersEqualExceptTimestamps", "pkg/fsutil/diff.go"), ("compare-then-replace", "cmd_layer_gobuild.go")], (), ["fsutil.LayersEqualExceptTimestamps", "ocibuild layer gobuild -o"])

prop("C18", "A built image is the base plus the given layers and configuration",
 "The image written by an image build has the base image's layers followed by the given layers in order, with the same bytes, and a configuration equal to the base's except for what the flags set: environment cleared or kept and then extended with the given values in order, entrypoint, command and working directory; setting the entrypoint does not alter the command unless asked. The result is a well-formed image tarball with the requested tag whose recorded digests match its layers, and any unreadable input yields an error and no usable image.",
 ["inputs", "configurations"], "all bases, layer lists and flag combinations",
 "No test builds an image.",
 ["cmd_image_build.go", "pkg/fsutil/open.go", "pkg/fsutil/write.go"],
 [("mutate.AppendLayers and config edits", "cmd_image_build.go")], (), ["ocibuild image build stdout"])

prop("C19", "A temporarily loaded image is always unloaded again",
 "When an image is loaded into the container engine for the duration of an action, the action runs exactly once and only after the load succeeded, the name it is given is the one that was loaded, the image is removed exactly once afterwards whether the action succeeds, fails, panics or is cancelled, and the first error is reported (a failing removal is reported if nothing else failed). If the load fails or is cancelled the action does not run, an error is reported and removal is attempted at most once. The removal never overtakes a load that is still running, and images loaded at the same time have different names, so that none is replaced or removed during another's action.",
 ["fault_sequences", "schedules"], "all combinations of load/action/removal success, failure, panic and cancellation",
 "The tests that use it need a container engine and never inject a failure.",
 ["pkg/dockerutil/docker.go"],
 [("deferred removal", "pkg/dockerutil/docker.go WithImage")], (), ["calls received by a stand-in docker executable"])

prop("C20", "Compatibility tags expand and match exactly",
 "A compressed tag set denotes exactly the product of its parts, printing and parsing it round-trips, an installer accepts a tag set exactly when the product meets its list of supported tags, and its preference is that of the earliest supported tag in the product (a file with a more preferred tag always ranks before one with a less preferred tag).",
 ["inputs", "configurations"], "all tag strings and installer lists",
 "Few cases exist and none checks preference.",
 ["pkg/python/pep425/tags.go"], [("Tag.decompress, Installer.Supports/Preference", "pep425/tags.go")], (), ["pep425 API"])

prop("C21", "Wheel file names parse to exactly one reading and round-trip",
 "A wheel file name is accepted exactly when it has the form DIST-VERSION[-BUILD]-PY-ABI-PLAT.whl with valid parts; the reading yields those parts, generating the name again gives an equivalent name, and build tags order first by their number, then by their suffix, absent before present.",
 ["inputs"], "all strings and all pairs of build tags",
 "Only a few names are covered.",
 ["pkg/python/pypa/bdist/misc.go", "pkg/python/pypa/bdist/binary_distribution_format.go"],
 [("ParseFilename/GenerateFilename/BuildTag.Cmp", "pkg/python/pypa/bdist")], (), ["bdist.ParseFilename, bdist.GenerateFilename, BuildTag.Cmp"])

prop("C22", "Inspecting an image finds the interpreter the image would run",
 "Looking up a program in an image finds the first entry of the image's own PATH (its first setting) that resolves, through symlinks and relative to the image's working directory, to an executable file; a name containing '/' is used as given, relative to the working directory; a missing or non-executable program, or a directory, is an error; nothing of the host leaks in. Of the two interpreters derived from a program, the console one is the program itself or, if it is a 'pythonw...', the 'python...' next to it when there is one; the graphical one is the 'pythonw...' next to the console one when there is one and otherwise the program itself. Stating an absolute path gives the mode and type of the file it resolves to in the image.",
 ["inputs", "configurations"], "all images (layers, symlinks, modes), PATH values and interpreter names",
 "No test covers the package.",
 ["pkg/python/pyinspect/fs_image.go", "pkg/python/pyinspect/pyinspect.go", "pkg/python/pyinspect/fs_native.go"],
 [("LookPath over the squashed file system", "pyinspect/fs_image.go"), ("Shebangs", "pyinspect/pyinspect.go")], (), ["pyinspect API"])

prop("C23", "Platform descriptions are what the interpreter says, and usable as they are",
 "'ocibuild python inspect' prints a description with the console and graphical interpreter it found, exactly the scheme directories, version, magic number and tags (in order) the console interpreter reports, the numeric and symbolic owner of the first scheme directory that exists (through symlinks; of the image, if one is inspected), and a compiler command: that interpreter itself or, for an image, the first of python<major>.<minor>, python<major> and python on the host's PATH that reports the same magic number. Given to 'ocibuild layer wheel' unchanged, the description is accepted and the wheel is installed at those places, with that owner and those interpreters. If no such description can be made the command fails and prints nothing. The library runs an interpreter with exactly the words of the caller's command line and the inquiry, however many callers there are at once, and leaves the caller's words alone.",
 ["inputs", "configurations", "schedules"], "all interpreters (of hosts and images), reports, scheme paths, owners and sets of host interpreters",
 "No test runs the command; writer and reader of the file use different YAML libraries.",
 ["cmd_python_inspect.go", "cmd_layer_wheel.go", "pkg/python/pyinspect/pyinspect.go", "pkg/python/pyinspect/fs_native.go", "pkg/python/platform.go", "pkg/python/pep425/tags.go"],
 [("owner, compiler and output", "cmd_python_inspect.go"), ("Dynamic", "pyinspect/pyinspect.go"), ("Platform fields", "pkg/python/platform.go")], (), ["ocibuild python inspect; ocibuild layer wheel"])

prop("C24", "File mode conversions between Python, ZIP and Go are lossless",
 "For every POSIX mode value, converting it to the host language's mode and back preserves type, permission, setuid, setgid and sticky bits, a value without a POSIX file type becomes irregular, its printed form is the one 'ls -l' shows, and the attributes read from a ZIP member are those stored in its external attributes.",
 ["inputs"], "all 65536 mode values and all ZIP external attributes",
 "Tests cover a small table of modes.",
 ["pkg/python/stat.go", "pkg/python/zip.go"], [("StatMode conversions", "pkg/python/stat.go"), ("ZIPExternalAttributes", "pkg/python/zip.go")], (), ["python.StatMode, python.ZIPExternalAttributes API"])

prop("C25", "Commands report failure by exit status and never emit partial success",
 "Every command either exits 0 having written the complete result to standard output, or exits non-zero with a message on standard error (2 for a usage error, which also points at the help; 1 for a run-time error) and without any of the result being a valid artifact on standard output.",
 ["inputs", "fault_sequences"], "all commands, argument vectors, and unreadable/corrupt/missing inputs",
 "No test runs the command line.",
 ["main.go", "cmd_image_build.go", "cmd_layer_dir.go", "cmd_layer_gobuild.go", "cmd_layer_squash.go", "cmd_layer_wheel.go", "cmd_python_getwheel.go", "cmd_python_inspect.go", "pkg/cliutil/cobra.go"],
 [("main error handling", "main.go"), ("FlagErrorFunc / arg validators", "pkg/cliutil")], (), ["process exit status, stdout, stderr"])

prop("C26", "An artifact gives the same result from a pipe as from a file",
 "A layer or image given as a pipe is read completely once and can be consumed repeatedly afterwards, giving the same bytes and digests as the same artifact given as a regular file; a regular file, compressed or not, gives its exact uncompressed bytes each time.",
 ["inputs", "schedules"], "all artifacts, chunkings of the pipe's writes and numbers of re-reads",
 "No test opens a pipe.",
 ["pkg/fsutil/open.go", "pkg/fsutil/write.go"], [("PathOpener buffering of non-regular files", "pkg/fsutil/open.go")], (), ["fsutil.OpenLayer/OpenImage", "ocibuild layer squash <(...)"])

prop("C27", "Compiled Python files are right for the installed sources",
 "Every .py file a wheel installs has exactly one compiled file in the __pycache__ directory next to it, which the target interpreter accepts as current for the source as it is installed (by hash, or by size and the clamped timestamp), which holds exactly the code that the installed source compiles to under its name in the image, and whose own bytes and timestamp are the same in every run, also when one compiler is used by several installations at once. A source that does not compile, and a compiler that is missing, fails or is cancelled, is an error; nothing remains on the host.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "all sets of sources, timestamps and clamp times, compiler commands, and interleavings of installations that share a compiler",
 "The one test compiles a single wheel, once, and does not look at timestamps.",
 ["pkg/python/py_compile.go", "pkg/python/pypa/bdist/binary_distribution_format.go", "cmd_layer_wheel.go"],
 [("ExternalCompiler", "pkg/python/py_compile.go"), ("compilation of the installed files", "pypa/bdist/binary_distribution_format.go")], (), ["python.Compiler, bdist.InstallWheel, ocibuild layer wheel"])

prop("C28", "A Go layer holds exactly what the compiler built for the image",
 "A Go layer contains exactly the binaries that the compiler produced for the given packages, in /usr/local/bin, owned by root and with clamped timestamps. The compiler runs in the caller's directory and environment with the given packages, but always for linux/amd64; the same sources in another directory give the same layer; what the compiler prints never gets into the layer. A compiler that fails, is missing or is cancelled is an error without a layer, and no temporary files remain.",
 ["inputs", "configurations", "fault_sequences"], "all sets of packages and binaries, environments of the caller and failures of the compiler",
 "There is no test for Go layers.",
 ["pkg/gobuild/gobuild.go", "cmd_layer_gobuild.go"],
 [("LayerFromGo", "pkg/gobuild/gobuild.go")], (), ["gobuild.LayerFromGo, ocibuild layer gobuild"])

prop("C29", "Help is complete and laid out for the terminal at every width",
 "The help of every command, asked for in any way, exits 0, goes to standard output, lists every subcommand and flag, and consists of the same words in the same order at every terminal width. Wrapping a text keeps all of its characters and line breaks: it only turns white space into line breaks, each followed by the indentation, does not break a text that fits, does not wrap at all at width 0, and leaves no line longer than the width unless some word does not fit.",
 ["inputs", "configurations"], "all texts, indentations and widths, and all commands",
 "The one test lays out two fixed commands at one width.",
 ["pkg/cliutil/wordwrap.go", "pkg/cliutil/borrowed_pflag.go", "pkg/cliutil/cobra_tmpl.go", "pkg/cliutil/term.go"],
 [("wrap", "pkg/cliutil/borrowed_pflag.go"), ("HelpTemplate", "pkg/cliutil/cobra_tmpl.go"), ("COLUMNS", "pkg/cliutil/term.go")], (), ["cliutil.Wrap, cliutil.WrapIndent, ocibuild ... --help"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
