W = 'ratarmount/WriteOverlay.py'
M = 'ratarmount/FuseMount.py'
C = 'core/ratarmountcore/'
X = C + 'SQLiteIndex.py'
PROPS = [
 dict(id='A01', title='Nothing but the program\'s own files is created, changed or removed',
  statement="Whatever is mounted, looked up, listed or read, archives, folders and the files next to them are only opened for reading. "
   "The only things ever created, changed or removed are the indexes, the program's own temporary and log files, a mount point it created "
   "itself, files below the write overlay, and the archive on a confirmed commit. A mount point that existed before is never removed.",
  over=['inputs', 'configurations'], q='every file opening, path-based system call, child process and database connection of the whole program, for every origin of its target',
  why='Tests cannot show that no input makes any of the backends write somewhere; every mutating construct and everything which can flow into its target has to be looked at.',
  files=[C + 'mountsource/factory.py', M, X], mech=[('read-only opening in all backends', C + 'mountsource/factory.py'), ('mount point bookkeeping', M), ('index file handling', X)],
  technique='whole-program effect enumeration + interprocedural origin slicing of targets', note='Native driver libraries opening files themselves and the vendored FAT driver are trusted to honour the read-only mode they are given.'),
 dict(id='A02', title='Overlay writes stay inside the overlay folder and off the control folder',
  statement="Whatever path a modifying file system request names, everything it creates, changes or removes on the real file "
   "system lies below the write overlay folder. No modifying request, including renames into and out of it, succeeds or leaves "
   "any trace for a path below the control folder while the control interface is enabled.",
  over=['inputs', 'histories'], q='every modifying request with every path argument, in every state of archive and overlay',
  why='Tests rename and write a handful of benign paths; the guarantee is about every path and every operation, including the second argument of two-path requests.',
  files=[W, M], mech=[('path join below the overlay root', W), ('protected prefix decorator on the operations', W), ('protected prefixes passed by the mount', M)],
  technique='typestate dataflow + path provenance over all FUSE operations', note='Symbolic links inside the overlay folder which the user planted are outside this argument.'),
 dict(id='A03', title='Deleted entries stay hidden, recreated ones appear, failures change neither',
  statement="With a write overlay, after a successful unlink, rmdir or rename the old path is gone from lookups and listings even "
   "if the archive contains it, and after a successful create, mkdir, mknod, symlink, link or rename the new path is visible even if "
   "it had been deleted before. A request that fails neither hides an existing entry nor reveals a deleted one. These changes are "
   "durable without a clean unmount.",
  over=['histories', 'fault_sequences', 'crash_points'], q='every operation on every combination of archive content, overlay content and deleted flags, with any file system or database call failing',
  why='Tests run fixed sequences without failing system calls; the flag discipline has to hold on every branch and exception edge of every operation.',
  files=[W, M], mech=[('deleted flags in the overlay database', W), ('deleted check before every lookup and deleted filter in listings', M)],
  technique='typestate dataflow over all exits incl. exception edges, SQL effects', note='Assumes that the kernel refuses creation of existing entries; children of renamed overlay folders are not tracked.'),
 dict(id='A04', title='Copy-up is complete and never discards data already written to the overlay',
  statement="The first modification of a file that only exists in the archive works on a complete copy of it, with its parent "
   "folder, and later modifications keep what was already written to the overlay: truncating or renaming an already modified file "
   "preserves its modified content. Data is written at the requested offset and exactly as given.",
  over=['histories', 'inputs'], q='every sequence of open, write, truncate, rename, create and link on every file',
  why='Whether the copy already exists depends on the preceding history; tests exercise each operation once on a fresh overlay.',
  files=[W, M], mech=[('copy from the mount source into the overlay', W), ('handle upgrade on first write', M)],
  technique='typestate dataflow over all FUSE operations', note='Completeness of the copy relies on shutil.copyfileobj or a read-to-end loop; a failing copy (disk full) is not rolled back.'),
 dict(id='A05', title='Without a write overlay every modifying request is rejected',
  statement="A mount without write overlay rejects every modifying request with a read-only error, with the single exception of "
   "writing commands to the control interface where that was explicitly requested. Neither the overlay nor the command file exists "
   "unless requested.",
  over=['inputs', 'configurations'], q='every modifying file system operation, path and handle under every option combination',
  why='There is one case per operation and option combination; tests check a few of them.',
  files=[M], mech=[('read-only fallthrough in the mount operations', M), ('rebinding of operations to the overlay', M)],
  technique='path-sensitive dataflow over the mount operations and constructor', note='Operations the class does not define inherit EROFS from the FUSE bindings.'),
 dict(id='A06', title='Metadata changes hit exactly the requested field of the requested file',
  statement="With a write overlay, changing mode, owner, group or modification time of any file is reflected by subsequent stat "
   "calls, changes no other attribute and no other file, works for files which only exist in the archive, and follows the file when "
   "it is renamed. An owner or group of -1 leaves the respective value alone.",
  over=['histories', 'inputs'], q='every metadata operation on every file in every overlay state',
  why='The metadata row may or may not exist depending on the history, and each field has its own column; tests check single values.',
  files=[W, M], mech=[('metadata rows of the overlay database', W), ('merge into looked up file infos', M)],
  technique='typestate dataflow with SQL column/value maps', note='Child rows of renamed folders are not tracked.'),
 dict(id='A07', title='Committing changes the archive only after confirmation and keeps the overlay',
  statement="Committing an overlay changes the archive only after it was recognised as an uncompressed TAR and the user entered "
   "the confirmation word; it removes all deleted and replaced members before appending the overlay's files, appends nothing after a "
   "failed deletion, never appends the overlay's own database, never modifies the overlay, and removes its scratch files.",
  over=['inputs', 'configurations', 'fault_sequences'], q='every overlay content, every user input and every failing step',
  why='Tests confirm a few commits; refusal, failure and cleanup paths depend on user input and on failing tools.',
  files=[W], mech=[('confirmation prompt before the tar commands', W), ('deletion and append lists', W)],
  technique='path-sensitive event-order dataflow over the commit operation', note='GNU tar is trusted.'),
 dict(id='B01', title='An interrupted or partial index is never taken for a complete one',
  statement="Whatever point an index creation is interrupted at (crash, kill, disk full, error), the unfinished database is never "
   "accepted later: it is marked as incomplete before the first entry is stored and until everything is stored, loading rejects marked "
   "databases as well as databases without entry table or whose versions cannot be read, probing a location leaves no database behind "
   "that looks complete, and a rejected database is closed and never served.",
  over=['crash_points', 'fault_sequences'], q='every statement boundary of index creation and every failing call during loading',
  why='Tests load a handful of complete indexes; the guarantee is about every prefix of the creation.',
  files=[X, C+'create-index-tables.sql'], mech=[('marker tables of the index schema', C+'create-index-tables.sql'), ('checks on loading', X)],
  technique='typestate dataflow over the loader and event order of the creation incl. SQL scripts', note='A single SQL script is assumed to be executed in statement order.'),
 dict(id='B02', title='An index of another archive, state or backend is never used',
  statement="An index is only used after its recorded backend and archive state were checked against the archive being mounted: it is "
   "rejected when the archive became smaller, when it grew (unless a TAR was recognised as appended to and the appended part is indexed), "
   "or, with verification enabled, when the modification time differs. The recorded state is the one from before the entries were read "
   "and is never overwritten by a later one. Every backend passes its archive path and its own unique name.",
  over=['histories', 'inputs'], q='every change of the archive between index creation and use, for every backend',
  why='Tests modify an archive in one or two ways for one backend.',
  files=[X, C+'mountsource/SQLiteIndexMountSource.py', C+'mountsource/formats/tar.py'], mech=[('archive state checks', X), ('index constructor arguments of the backends', C+'mountsource/formats')],
  technique='path-sensitive comparison facts + argument provenance', note='Changes that keep size (and, without verification, any time) are not detected by design.'),
 dict(id='B03', title='Read-only indexes are never modified or deleted, unrequested ones not written',
  statement="An index file that is opened directly as a mount source, and every index in read-only mode, is only opened read-only and is "
   "never modified or deleted. Remote indexes are never deleted. Existing non-empty files are only deleted when they were found to be unusable "
   "or clearing indexes was requested. Without writeIndex no index file is created. No index option is silently ignored because of a misspelt name.",
  over=['inputs', 'fault_sequences', 'configurations'], q='every way an index can be invalid and every failing call, under every option combination',
  why='The deletion happens on error paths that tests do not reach.',
  files=[X, C+'mountsource/SQLiteIndexMountSource.py'], mech=[('guards before deleting and connecting', X)],
  technique='path-sensitive effect analysis over all index operations', note='Concurrent processes are not considered.'),
 dict(id='B04', title='Names and paths never change the meaning of a database query',
  statement="Member names, paths, attribute keys and index locations are always passed to databases as parameters and are compared exactly: "
   "whatever characters they contain (quotes, wildcards, percent signs, question marks), they can neither change a query nor match another entry "
   "nor open another database file. Queries for a single entry compare both folder and name.",
  over=['inputs'], q='every name and path, in every database query of the program',
  why='Tests use ordinary names; the guarantee is about every string.',
  files=[X, W, C+'mountsource/formats/sqlar.py'], mech=[('parameterised queries', X), ('quoted database URIs', X)],
  technique='whole-program backward slices of query texts', note='Keyword names and values asserted to be integers count as constants.'),
 dict(id='B05', title='Entry attributes are never mixed up between reader, index and stat',
  statement="Size, modification time, mode, owner, group and link target of every entry keep their identity from the archive reader over the "
   "index database to the stat structure: index rows have exactly the schema's columns, no field is filled from another field's source, "
   "positional reads agree with the selected columns, fractions of seconds are kept, and every POSIX member type of a TAR is shown with its own file type.",
  over=['inputs'], q='every entry of every archive format',
  why='Values that happen to be equal (owner and group, sizes of small files) hide mix-ups in tests.',
  files=[X, 'ratarmount/FuseMount.py', C+'mountsource/formats'], mech=[('index rows of the backends', C+'mountsource/formats'), ('row to file info', X), ('getattr', M)],
  technique='whole-program field provenance by name', note='Provenance is judged by the vocabulary of field names; values the libraries report are trusted.'),
 dict(id='C03', title='File infos of compositing layers lead back to their own entry',
  statement="A file info returned by lookup or list of a compositing layer (union, subvolumes, recursive mounts, versions, prefixes) can be "
   "opened, read and queried for attributes through the same layer any number of times, also after accesses that failed, and always reaches "
   "the entry and the mount source it came from. get_mount_source returns a file info which is usable with the returned mount source, and "
   "leaves the given file info as it was.",
  over=['inputs', 'histories', 'fault_sequences', 'configurations'], q='every stack of layers, every entry, every sequence of accesses including failing ones',
  why='Layers communicate through a stack inside of the file info whose balance has to hold on every path, exception edge and combination of layers.',
  files=[C+'mountsource/compositing'], mech=[('userdata stack', C+'mountsource/compositing/union.py'), ('get_mount_source', C+'mountsource/compositing/automount.py')],
  technique='typestate dataflow over the interface of all compositing layers', note='Marks are compared by provenance.'),
 dict(id='C04', title='Compositing layers forward every request completely and to all children',
  statement="Compositing layers change nothing about a request but what they exist for: the requested path, file version, buffering, offset, "
   "size and attribute key reach the child, optional operations (versions, extended attributes, mount source resolution, joining threads, closing) "
   "are forwarded to every child, and a layer only claims to be immutable if all children are.",
  over=['inputs', 'configurations'], q='every request to every layer with any number and nesting of children',
  why='Default values hide dropped arguments and single children hide missing iterations.',
  files=[C+'mountsource/compositing'], mech=[('interface of the layers', C+'mountsource/MountSource.py')],
  technique='argument provenance at all calls from layers to children', note='statfs is documented as optional.'),
 dict(id='C05', title='Union mounts give precedence to the last source consistently and drop nothing',
  statement="In union mounts the last mount source wins consistently in lookups and listings, explicit file versions count from the first source, "
   "listings contain all names of all sources, versions are summed over all sources, and sources which may change are never skipped because of "
   "cached folders.",
  over=['inputs', 'configurations', 'histories'], q='every path in any number of united sources',
  why='Precedence only shows for colliding names, and skipped sources only when they change later.',
  files=[C+'mountsource/compositing/union.py'], mech=[('loops over the mount sources', C+'mountsource/compositing/union.py')],
  technique='loop direction and merge classification by dataflow', note='Folder caches of immutable sources are assumed complete up to their recorded depth.'),
 dict(id='C07', title='Nested archives are mounted no deeper than requested and fail in isolation',
  statement="With recursive mounting, an archive inside of an archive is mounted if and only if it is nested no deeper than requested, however the "
   "levels are spread over different archive formats, because each nested archive only gets the remaining depth. An archive which cannot be opened "
   "stays visible as a file and affects neither the request nor any other archive.",
  over=['inputs', 'configurations', 'fault_sequences'], q='every nesting of archives, every requested depth and every failing archive',
  why='Tests mount a few fixed nestings; unbounded or off-by-one recursion depends on the combination of formats and depths.',
  files=[C+'mountsource/compositing/automount.py', C+'mountsource/formats/tar.py'], mech=[('depth comparison before opening', C+'mountsource/compositing/automount.py'), ('depth of nested TARs', C+'mountsource/formats/tar.py')],
  technique='path-sensitive dataflow of depth comparisons (linear normal form) and exception edges', note='Whether a file looks like an archive (suffix rules) is not part of the argument.'),
 dict(id='C01', title='Entries appear below their own mount point under normalised names',
  statement="Whatever names an archive contains, its entries appear below its own mount point under normalised names which lookups, listings and "
   "version queries agree on, whatever spelling of the path is requested, and all parent folders of every entry exist. Members of nested archives "
   "never appear outside of the folder the nested archive is mounted to. A requested path transformation is applied to every entry.",
  over=['inputs', 'configurations'], q='every member name (absolute, with dot components, duplicated slashes) in every supported format and every requested path',
  why='Tests contain a few odd names for one format; every backend builds its names itself and every query normalises on its own.',
  files=[X, C+'mountsource/formats/tar.py'], mech=[('normalisation of member names before they are stored', X), ('normalisation of requested paths', X), ('creation of parent folders', X)],
  technique='path provenance of every stored row and query parameter, abstract evaluation of the normalisation', note='Backends without index delegate path handling to their libraries and are only covered where they normalise themselves.'),
 dict(id='D03', title='Opened files behave like files when reading, seeking and asking for the position',
  statement="For every opened archive member and every internal file view, whatever sequence of reads and seeks is issued: reads return the bytes "
   "at the current position and advance it by the returned amount, a negative size reads until the end, and seeking relative to start, position, or "
   "end leads to and returns that position. Empty files are readable too and reads do not end early at internal block boundaries. "
   "Reading a mounted file at an offset returns the data at exactly that offset.",
  over=['inputs', 'histories'], q='every sequence of read, readinto, seek and tell with all sizes, offsets and reference points on every file object class',
  why='Tests read whole files or sample a few offsets of a few formats.',
  files=['core/ratarmountcore/StenciledFile.py', 'core/ratarmountcore/BlockParallelReaders.py', C+'mountsource/formats/squashfs.py', C+'mountsource/formats/libarchive.py', M],
  mech=[('position bookkeeping of file objects', 'core/ratarmountcore/StenciledFile.py'), ('repositioning before reads at an offset', M)],
  technique='typestate dataflow over position, amount and seek arithmetic of all file object classes', note='The content returned by decoders and third-party file objects is trusted.'),
 dict(id='D01', title='Files opened at the same time do not influence each other',
  statement="However many files of one archive are open and in whatever order, also from several threads, they are read, each one keeps its own "
   "position and returns its own bytes. Accesses to the file object the archive is stored in are serialised and set their position themselves; "
   "decoder states are never used by two opened files. The mounted file system serves its requests one after another.",
  over=['schedules', 'histories'], q='every interleaving of reads and seeks on all files opened from one archive, and all operations of mount sources after their construction',
  why='Interference only shows for particular interleavings and with particular formats; tests read one file after another.',
  files=['core/ratarmountcore/StenciledFile.py', C+'mountsource/formats/tar.py', C+'mountsource/formats/libarchive.py', C+'mountsource/formats/squashfs.py', 'ratarmount/actions.py'],
  mech=[('locks around shared file objects', C+'mountsource/formats/tar.py'), ('views with their own position', 'core/ratarmountcore/StenciledFile.py')],
  technique='lock-set and typestate dataflow, escape and ownership checks of file objects', note='Third-party readers (zipfile, rarfile, ext4) are trusted to handle several opened members; FUSE request serialisation relies on libfuse.'),
 dict(id='D02', title='Members cover exactly the bytes recorded for them',
  statement="An opened member yields the bytes from its recorded data offset up to its recorded size and nothing before or behind them, "
   "whether it is read as a whole, in pieces, or at an offset. The holes and data regions of sparse files alternate without gaps or overlaps, "
   "and joined views map each position to the one region which contains it.",
  over=['inputs', 'histories'], q='all members of archives read through byte ranges of the archive file, all positions and amounts of reads in joined views',
  why='Off-by-one errors and missing clamps only show at particular positions, sizes, and sparse layouts; tests sample a few members read from the start.',
  files=['core/ratarmountcore/StenciledFile.py', C+'mountsource/formats/tar.py', C+'mountsource/formats/ar.py', C+'mountsource/formats/ogg.py', C+'mountsource/formats/html.py', C+'mountsource/formats/libarchive.py', C+'mountsource/formats/squashfs.py'],
  mech=[('views of byte regions', 'core/ratarmountcore/StenciledFile.py'), ('recorded offsets', X)],
  technique='symbolic linear arithmetic over dataflow terms', note='That the recorded offsets and sizes themselves are right is the business of the archive parsers (tarfile and others).'),
 dict(id='E01', title='Every command line option reaches the components it configures',
  statement="Each option given on the command line takes effect with the given value: it is read after parsing, handed on to every component which "
   "takes it, also for nested archives, folders, union mounts, and index creation without mounting, and is neither dropped, swapped with another one, nor overwritten "
   "on the way. No component reads an option under a name nobody sets, and the three states of index recreation are told apart.",
  over=['configurations'], q='all options of the command line, all constructors and calls between the command line and the components reading the options',
  why='A dropped or misspelt keyword is swallowed silently by the open keyword arguments; tests exercise few options in few combinations of backends and layers.',
  files=['ratarmount/cli.py', 'ratarmount/CLIHelpers.py', 'ratarmount/actions.py', M, C+'mountsource/factory.py', C+'mountsource/compositing/automount.py', C+'mountsource/SQLiteIndexMountSource.py'],
  mech=[('option dictionary', 'ratarmount/CLIHelpers.py'), ('keyword arguments of backends', C+'mountsource/archives.py')],
  technique='whole-program name and keyword flow', note='What a component does with a correctly received option is the business of the other properties.'),
 dict(id='D04', title='Open file handles stay tied to their own file until released',
  statement="Each open or create in a mount yields a handle different from all others in use, and reading, writing, flushing, and releasing with it act on exactly the file opened with it. "
   "The handle stays usable until it is released, also after a failed write; releasing closes the file exactly once and forgets it. Synchronising a written file reaches the file in the write overlay.",
  over=['histories', 'inputs', 'crash points'], q='all paths through the handle operations of the mount and the write overlay',
  why='Tests use one or two handles at a time and no failing operations; a mixed-up or leaked handle shows only with interleaved opens, releases and failures.',
  files=[M, W], mech=[('handle table', M), ('overlay file handles', W)],
  technique='path-sensitive typestate analysis of the handle table', note='File systems are mounted with nothreads=True, so each operation runs to its end before the next one starts.'),
 dict(id='D06', title='Probing for file formats and backends leaves no traces and stops nothing',
  statement="Looking for the format or backend of a file neither closes it nor changes the position it had, and each backend starts reading at its beginning whatever was tried before. "
   "An error in one format check or backend only moves on to the next. Backends chosen by the user are tried first, then those fitting the file extension, then all others whose format checks match, and the first one to open the file is used.",
  over=['inputs', 'configurations'], q='all paths through the format detection, the compression detection, and the search for a backend',
  why='Tests open well-formed archives; how a malformed file or a failing third-party module influences the remaining candidates depends on the order of all of them.',
  files=[C+'formats.py', C+'compressions.py', C+'mountsource/factory.py', C+'mountsource/archives.py'],
  mech=[('format checks', C+'formats.py'), ('search for a backend', C+'mountsource/factory.py')],
  technique='path-sensitive typestate and exception containment analysis', note='Whether a format check recognizes the right files is not decided; third-party checks are assumed not to close the file they are given.'),
 dict(id='E02', title='Commands written to the control interface are carried out completely and once',
  statement="A command written to the control file in any number of pieces is run exactly once with everything that was written when the file is closed, and no command makes the mount fail. "
   "Each mount point to be unmounted is unmounted by the mount itself if it lies inside of it and is otherwise handed to a subprocess. "
   "Whatever the mount does not do itself is done by one subprocess, which gets all of the remaining arguments.",
  over=['inputs', 'histories'], q='all paths through the command file and the processing of commands',
  why='Tests write single well-formed commands; commands mixing mount points inside and outside of the mount and failures in the middle of a command are not sampled.',
  files=[M], mech=[('command file', M), ('command handler', M)],
  technique='path-sensitive typestate and obligation dataflow', note='What the started subprocess does is not followed; the splitting of the command line into arguments is not decided.'),
 dict(id='D07', title='No threads or workers are left when the mount moves into the background',
  statement="All threads and worker processes started while archives are opened and indexed have ended before the mount process is forked into the background, and nothing is opened or read in between. "
   "They are started again when needed, no matter through how many layers an archive is reached. The mount refuses to move into the background while threads are left, and handles its requests in a single thread.",
  over=['schedules', 'configurations'], q='all paths through the construction of the mount, the daemonizing call, and all owners of pools',
  why='Tests mount in the foreground or with few backends; a leftover thread in one combination of layers and backends shows as a process which hangs or cannot be killed.',
  files=[M, 'ratarmount/actions.py', C+'BlockParallelReaders.py', C+'mountsource/compositing/', C+'mountsource/formats/tar.py'],
  mech=[('construction of the mount', M), ('daemonizing call', 'ratarmount/actions.py'), ('parallel readers', C+'BlockParallelReaders.py')],
  technique='ordering typestate and ownership analysis', note='Threads started inside of third-party libraries are assumed to end when their file object is asked to join its threads.'),
 dict(id='D08', title='The process providing a mount never accesses its own mount',
  statement="While handling a request, neither paths given in commands nor locations of indexes nor links in a folder which is mounted on itself are accessed before they are known to lie outside of the mount; a folder which is mounted on is accessed through a descriptor opened before mounting. "
   "No request waits for another process, and actions which access arbitrary mount points are refused inside of the mount. An access to the own mount would block the process forever.",
  over=['inputs', 'configurations'], q='all paths from the request handlers and commands to accesses of the file system, and all links of a mounted folder',
  why='A deadlock needs a path into the mount at one specific access, which tests hardly provoke because it hangs them.',
  files=[M, 'ratarmount/actions.py', W, C+'mountsource/formats/folder.py'],
  mech=[('commands and index locations', M), ('guarded actions', 'ratarmount/actions.py'), ('folder access by descriptor', C+'mountsource/formats/folder.py'), ('overlay database', W)],
  technique='taint and effect analysis', note='Mounts of other processes which depend on this one are out of reach; only the exact mount point and lexical or resolved paths below it count as inside.'),
 dict(id='C02', title='Paths which do not exist are answered as missing',
  statement="Looking up or listing a path which does not exist yields no result (or an empty listing) instead of an error in every mount source, composition and interface, and every user of such a result tests for it before using it. "
   "Requests to the mount for a missing path, including those which would change it in the overlay, fail with the error for missing files (ENOENT) instead of an internal error or success.",
  over=['inputs', 'configurations'], q='all uses of results of looking up and listing paths, and all paths of the request handlers on which the path is known to be missing',
  why='A use of an absent result only fails for a path which is missing in one specific layer, version or composition.',
  files=[M, W, C+'mountsource/MountSource.py', C+'mountsource/compositing/union.py', C+'mountsource/compositing/automount.py'],
  mech=[('request handlers', M), ('overlay', W), ('layers', C+'mountsource/compositing/union.py'), ('layers', C+'mountsource/compositing/automount.py'), ('interface', C+'mountsource/MountSource.py')],
  technique='nullness dataflow', note='Tests by the emptiness of a listing count as tests; whether a lookup itself finds the right row is the subject of the index properties.'),
]
NA = []
K = C + 'compressions.py'
B_ = C + 'BlockParallelReaders.py'
NA = [
 dict(id='F01', title='Decompressed and decrypted contents equal what was packed',
  statement="The bytes of every file read through the mount equal those which were packed, for every supported compression, encryption and "
   "container format, including all its format extensions.",
  over=['inputs'], q='every archive which the reference tool of its format can create',
  why='Tests compare some dozens of sample archives; formats have many encoders, options and extensions.',
  files=[K, C + 'mountsource/formats'], mech=[('decoders called by the backends', K)],
  reason="Equality of decoded contents is a property of the native and third-party decoders and of runtime bytes; no static argument over the Python sources can "
   "bound it. What the sources add around the decoders (offsets, sizes, positions, row contents) is decided by B05, D02 and D03."),
 dict(id='F02', title='Every file of a supported format is recognised, and no other one is',
  statement="A file is mounted with a backend if and only if it has one of the formats this backend supports.",
  over=['inputs'], q='every file content',
  why='Tests probe one or two files per format; false detections depend on arbitrary file contents.',
  files=[C + 'formats.py', C + 'mountsource/factory.py'], mech=[('magic bytes and header checks', C + 'formats.py')],
  reason="Whether given bytes belong to a format is a statement about contents at run time and about third-party parsers without a specification in the code "
   "to compare with; that probing itself is side-effect free, complete and ordered is decided by D06."),
 dict(id='F03', title='Accesses take bounded time and memory however large the archive is',
  statement="Looking up and listing entries and reading from any offset take time and memory which do not grow with the archive size or the position in it.",
  over=['inputs', 'configurations'], q='every archive size, member count, nesting and access pattern',
  why='Tests use small archives and do not measure.',
  files=[X, K, B_], mech=[('indexed queries', X), ('seek points of the decoders', K), ('block caches', B_)],
  reason="Time and memory depend on runtime sizes, on SQLite's query planner, and on seek point spacing inside native decoders; a syntactic complexity bound would "
   "not be sound for any of them."),
 dict(id='F04', title='Parallel and serial decoding return the same bytes under every schedule',
  statement="With any parallelization and any interleaving of decoder threads or processes the decompressed stream is the same as with a single one.",
  over=['schedules', 'inputs'], q='every schedule of the decoder threads on every compressed file',
  why='Tests run a few schedules on a few files.',
  files=[B_, K], mech=[('pool of block decoders', B_), ('parallel native decoders', K)],
  reason="The threads live in rapidgzip's native code and in forked worker processes whose results are joined in request order; schedules inside native code are out of "
   "reach of an analysis of the Python sources. Locking of shared file objects and the life time of pools are decided by D01 and D07."),
]
