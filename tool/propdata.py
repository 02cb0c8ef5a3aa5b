def q(over, text):
    return {'over': over, 'text': text}


def m(name, where):
    return {'name': name, 'where': where}


PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, level='other'):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': q(over, text), 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [m(*x) for x in mech]}, 'technique': technique, 'level_note': note, 'level': level})


P('P01', 'Parsing leaks no undocumented exception',
  'Whatever bytes a file contains, the parse methods of the media file class let nothing but std::ios_base::failure escape: invalid, truncated, '
  'unsupported and aborted input is turned into diagnostics and a parsing status. The public parse methods of the lower layers (containers, tracks, '
  'tags, frames, elements) are left only by std::ios_base::failure or an exception of the Failure family.',
  ['inputs'], 'every file content and every call path through the parsers',
  'The stable tests parse one unsupported file and a few in-memory values; which exception a particular malformed field raises deep inside a parser depends on the input.',
  ['mediafileinfo.cpp', 'id3/id3v2frame.cpp', 'id3/id3v2tag.cpp', 'tagvalue.cpp', 'mp4/mp4track.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp'],
  [('catch blocks of the parse methods', 'mediafileinfo.cpp'), ('conversion errors caught where values are parsed', 'id3/id3v2frame.cpp, mp4/mp4tagfield.cpp, vorbis/vorbiscommentfield.cpp')],
  'interprocedural exception-flow analysis',
  'All call paths incl. virtual and bound calls; external functions per a table; substr/at/optional sites discharged by local guard proofs.')

P('P02', 'Applying changes only fails with documented exceptions',
  'Applying changes is left only normally, by std::ios_base::failure or by an exception of the Failure family, so that callers (and the code restoring '
  'the original file) can handle every failure. Destructors and functions declared not to throw never let an exception escape.',
  ['inputs', 'fault_sequences'], 'every set of tag values assigned by the user, every file, every failing IO operation',
  'The failure depends on the tag values and on the failing operation; no stable test applies changes.',
  ['mediafileinfo.cpp', 'abstractcontainer.cpp', 'mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp', 'backuphelper.cpp'],
  [('exception dispatcher', 'backuphelper.cpp'), ('per-field error handling of the makers', 'id3/id3v2tag.cpp, mp4/mp4tag.cpp, matroska/matroskatag.cpp')],
  'interprocedural exception-flow analysis',
  'As P01 for the write path; plus an empty exception set for every noexcept function and destructor.')

P('P03', 'No integer division by zero on any input',
  'No integer division or modulo operation evaluated while parsing, querying or writing a file has a divisor which can be zero, whatever the file contains '
  '(time scales, sample counts, sizes and rates read from the file included).',
  ['inputs'], 'every value of every field read from a file',
  'A zero in one particular header field is needed; tests only use well-formed values.',
  ['mp4/mp4container.cpp', 'mp4/mp4track.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp', 'wav/waveaudiostream.cpp', 'avc/avcinfo.h', 'size.cpp'],
  [('checks of the divisor before dividing', 'mp4/mp4container.cpp, mp4/mp4track.cpp')],
  'guard (must-hold fact) analysis over all division sites',
  'Every non-constant integer divisor needs a dominating non-zero fact, an interval excluding zero or a callee returning non-zero.')

P('P04', 'Absent elements, tracks, tags and optional values are never dereferenced',
  'A pointer, smart pointer or optional which refers to an object of the library (file element, track, tag, container, field value, configuration, settings, '
  'progress object) and may be absent - because the file does not contain the element, nothing has been parsed yet, the lookup or creation had no result - is only '
  'dereferenced where it is known to be present: every value it can have there is an existing object or it has been tested on every path leading there.',
  ['inputs', 'histories'], 'every file structure (any element may be missing) and every order of API calls',
  'Which element is missing depends on the file; tests use complete files.',
  ['mediafileinfo.cpp', 'mp4/mp4container.cpp', 'mp4/mp4track.cpp', 'matroska/matroskacontainer.cpp', 'genericfileelement.h', 'ogg/oggcontainer.cpp'],
  [('null checks of element lookups', 'mp4/mp4container.cpp, mp4/mp4track.cpp, matroska/matroskacontainer.cpp')],
  'interprocedural nullness proof (must-hold facts, non-null members, container elements, arguments and returns)',
  'Every dereference in the program is an obligation which is discharged by a sound-by-construction reason or a dominating test.')

P('P10', 'A failed or aborted rewrite restores the original file',
  'When applying changes fails or is aborted after the original file has been moved to the backup location, the backup is moved back to the original path before the '
  'exception reaches the caller, and the failure is always reported to the caller.',
  ['fault_sequences', 'inputs'], 'every operation that can fail after the original file has been moved away, in all four writers',
  'Needs an IO error or abort at a particular point of a rewrite; no stable test rewrites a file.',
  ['backuphelper.cpp', 'mediafileinfo.cpp', 'mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp'],
  [('restoreOriginalFileFromBackupFile', 'backuphelper.cpp'), ('handleFailureAfterFileModified', 'backuphelper.cpp'), ('try blocks of the writers', 'mediafileinfo.cpp, */*container.cpp')],
  'interprocedural typestate over exceptional control flow',
  'States: original in place / moved away / restored; no exceptional exit of a writer in the moved-away state, no normal return after a swallowed failure.')

P('P11', 'Creating and restoring backups never overwrites or loses a file',
  'A backup is only created under a path tested to be unused, the original is only removed when the backup to restore is known to exist, and moving the file is never done while errors '
  'are ignored: each failing filesystem operation is noticed before the next step relies on it.',
  ['fault_sequences', 'configurations'], 'every state of the backup directory and every failing filesystem operation',
  'Tests cover one pre-existing backup file; they cannot make each filesystem call fail.',
  ['backuphelper.cpp'],
  [('search for an unused backup path', 'backuphelper.cpp createBackupFile'), ('existence check before removing the original', 'backuphelper.cpp restoreOriginalFileFromBackupFile')],
  'path-sensitive typestate and error-code discipline on filesystem calls',
  'Move/copy targets need a preceding non-existence test of the same path; removal needs an existence test; error codes must be tested before the next operation.')

P('P12', 'An aborted operation is never reported as completed',
  'When the user aborts while changes are applied, applying the changes ends with the abort exception - copying which was cut short by the abort never continues as if all data had been '
  'written - and no handler turns an abort into success or another failure. When parsing tracks, tags, chapters or attachments is aborted, their status is not reported as successfully parsed. '
  'An abort which has been requested is never withdrawn and noticed by every abort check.',
  ['schedules', 'inputs'], 'an abort requested at any time (between any two progress checks)',
  'Needs an abort at a particular moment, e.g. in the middle of copying a large element.',
  ['progressfeedback.h', 'genericfileelement.h', 'mediafileinfo.cpp', 'mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp'],
  [('stopIfAborted', 'progressfeedback.h'), ('abort handlers', 'mediafileinfo.cpp')],
  'must-pass-through analysis after abortable copies; handler audit',
  'Every copy which stops silently when aborted must be followed by an abort check on all paths; abort handlers must rethrow or set a non-Ok status.')

P('P13', 'Changes are only applied to completely parsed files',
  'Applying changes modifies a file only if its tracks and its tags have been parsed before without critical errors (each was parsed successfully or found to be unsupported); otherwise it fails with an exception before touching the file.',
  ['histories'], 'every combination of parsing states and every order of API calls',
  'The stable tests do not apply changes in each of the parsing states.',
  ['mediafileinfo.cpp'],
  [('status checks at the beginning of applying changes', 'mediafileinfo.cpp applyChanges')],
  'path-sensitive exploration for every combination of statuses',
  'All 16 combinations; a file effect is any call which may reach a stream write, truncating open or modifying filesystem call.')

P('P14', 'Stale parsing results never survive applying changes',
  'Once applying changes has started to write, all previous parsing results (container, tracks, tags, offsets, sizes and statuses) have been cleared when the call is left, whether it succeeded or failed, so later use '
  'of the object never relies on the layout of the old file. Discarding the parsing results (also by re-opening or invalidating the file) resets every one of them.',
  ['histories', 'fault_sequences'], 'every outcome of applying changes and every history of API calls before',
  'Needs failures at particular points followed by further use of the same object.',
  ['mediafileinfo.cpp', 'mediafileinfo.h'],
  [('clearParsingResults', 'mediafileinfo.cpp')],
  'must-pass-through on all exits plus member coverage of the reset function',
  'All exits of applyChanges after the gate pass the clearing function; the clearing function writes every result member.')

P('P15', 'Parsing never modifies the file',
  'Opening a file and parsing any part of it never writes to, truncates, creates, renames or removes any file, regardless of the content.',
  ['inputs'], 'every file content and every call path through the parsers',
  'A write hidden on a rare parsing path is not observable with a handful of files.',
  ['mediafileinfo.cpp', 'basicfileinfo.cpp', 'abstractcontainer.cpp', 'abstracttrack.cpp'],
  [('separation of parsers and makers', 'whole library')],
  'effect analysis (who may write) over the call graph',
  'No function reachable from the parse entry points contains a stream write to a non-local stream, a writable/truncating open or a modifying filesystem call.')

P('P16', 'Saving to another path leaves the original file untouched',
  'When a path to save to is set, applying changes never modifies the original file: it is only opened for reading and neither written to, truncated, moved nor removed, whatever the other settings are and whatever fails. '
  'The path which becomes the current path is exactly the path to save to.',
  ['inputs', 'configurations'], 'every format and every failing operation while a save path is set',
  'No stable test applies changes with a save path.',
  ['mediafileinfo.cpp', 'mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp'],
  [('branch on the save path', 'mediafileinfo.cpp, */*container.cpp')],
  'path-condition analysis of opening/moving operations',
  'Every truncating open/backup/resize of the original is dominated by the save path being empty (or by rewriting not being required, which implies it).')

P('P17', 'Files given as file URLs are accessed through their local path everywhere',
  'Every operation of the library which opens, resizes, moves or tests a file uses the local path derived from the (possibly "file:/"-URL-style) path given by the user, so files specified as URL behave like files specified as path - also when changes are applied or backups are created and restored.',
  ['configurations', 'inputs'], 'every operation of the library accessing the file system',
  'Tests only use plain paths.',
  ['basicfileinfo.cpp', 'mediafileinfo.cpp', 'backuphelper.cpp', 'mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp'],
  [('pathForOpen', 'basicfileinfo.h')],
  'taint analysis of path arguments',
  'Each path argument of an open/filesystem call must be derived from the URL-stripping function or a canonicalised path.')

P('P18', 'Sizes which do not fit their field are refused instead of truncated',
  'When tags, frames, elements or pages are written, a size or length which does not fit the width of the size field of the format is never silently truncated: it is rejected, or the value is known to fit.',
  ['inputs'], 'every size of every value assigned by the user',
  'Needs huge or boundary-sized values.',
  ['id3/id3v2frame.cpp', 'id3/id3v2tag.cpp', 'mp4/mp4tagfield.cpp', 'mp4/mp4atom.cpp', 'matroska/matroskatagfield.cpp', 'vorbis/vorbiscommentfield.cpp', 'flac/flacmetadata.cpp'],
  [('range checks before writing size fields', 'id3/id3v2frame.cpp, mp4/mp4tagfield.cpp, mp4/mp4atom.cpp')],
  'range-guard analysis of narrowing conversions feeding size fields',
  'Every narrowing of a 64-bit size into a writer argument needs a dominating upper-bound check or a bounded source.')

PROPS[-1]['reason'] = ('the sizes concerned (frames of 2^28 bytes, values of 2^32 bytes, FLAC blocks of 2^24 bytes) are run-time quantities set by the user and mostly narrowed '
                       'without any check in the code (about 25 conversions): there is no bound a static argument could start from, so a check would either report the '
                       'conversions as such, most of which no realistic value reaches, or accept all of them')

P('P19', 'EBML length computation and EBML encoding agree for every value',
  'For every EBML identifier, element size and unsigned integer, the number of bytes computed in advance for its encoding equals the number of bytes the encoder returns and fills (with a specified minimum of up to 8 bytes: the larger one of both), decoding these bytes yields the '
  'value (sizes never use the pattern reserved for an unknown size), and values which cannot be encoded are rejected by the computation and the encoder alike. Buffers passed to the encoders are large enough.',
  ['inputs'], 'all 2^64 values of each encoder and all of its callers',
  'Only boundary values reveal an off-by-one in a length class; tests sample none of them.',
  ['matroska/ebmlelement.cpp', 'matroska/ebmlelement.h'],
  [('calculate*Length and make* pairs', 'matroska/ebmlelement.cpp')],
  'abstract interpretation (intervals and symbolic bits) of both functions with exact partitioning of the input range',
  'Both functions are evaluated abstractly from their syntax trees to a partition of the value range; lengths, every bit of the encoding and rejections must agree.', 'proof')

P('P20', 'Ogg pages are never left with a stale checksum',
  'When an Ogg file is rewritten, the checksum of every page which is not a mere copy of the original page (because its content, flags, sequence number or granule position has been written anew) is recomputed via OggPage::updateChecksum() for the offset '
  'where that page starts in the output, after the last modification of the page and before success is reported; OggPage::updateChecksum() always writes the checksum computed for that page.',
  ['inputs', 'histories'], 'every page layout of the source file and every combination of changed comments',
  'No stable test writes an Ogg file.',
  ['ogg/oggcontainer.cpp', 'ogg/oggpage.cpp'],
  [('list of updated page offsets', 'ogg/oggcontainer.cpp'), ('updateChecksum', 'ogg/oggpage.cpp')],
  'interprocedural typestate over page writes, recorded offsets and checksum updates',
  'Every write operation which modifies a page must be accompanied (in the same turn of the loop writing pages) by recording the output position at which the page starts; the recorded offsets are all processed, in a loop without a path which skips the update, before the function returns normally; nothing is modified afterwards.')

P('P23', 'Failures are never silently discarded',
  'Whenever the library catches an exception signalling a failure (TagParser::Failure and what derives from it, or std::ios_base::failure) and carries on instead of passing it on, a diagnostic message has been added to the passed '
  'diagnostics: either by the code which failed before it threw, or by the code which caught the exception before it returns; or the critical failure is recorded in the parsing status. Exceptions used as regular answers (NoDataFoundException, '
  'NoDataProvidedException) and the abort request (OperationAbortedException) are no failures in this sense.',
  ['inputs', 'fault_sequences'], 'every failure on every path',
  'Needs each of the failures to be provoked and its diagnostics to be inspected.',
  ['mediafileinfo.cpp', 'abstractcontainer.cpp', 'abstracttrack.cpp', 'id3/id3v2tag.cpp', 'mp4/mp4tag.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp'],
  [('catch blocks', 'whole library')],
  'interprocedural typestate over exceptional control flow',
  'An exception carries whether a message has been emitted between its origin and its handler; a handler that swallows an unreported one must report, throw or record the status on every path.')

P('P24', 'Every parsing attempt settles its status and is not repeated',
  'After a parse method of the media file class returned without having been aborted, the status of that part (container, tracks, tags, chapters, attachments) is no longer "not parsed yet"; it is "critical failure" if parsing the part failed and never claims success if '
  'parsing is not implemented. A part whose status is settled is not parsed again and its results stay untouched. Containers flag a part as parsed if and only if parsing it completed and do not parse it again.',
  ['inputs', 'histories'], 'every file content, every exception and every order of parse calls',
  'Each of the exits of each parse method needs its own malformed file.',
  ['mediafileinfo.cpp', 'abstractcontainer.cpp', 'abstracttrack.cpp'],
  [('ParsingStatus members', 'mediafileinfo.h')],
  'path-sensitive typestate of the status members',
  'Status values tracked through all paths, handlers and nested parse methods, starting from each of the statuses.')

P('P25', 'Generic fields and format-specific identifiers map consistently both ways',
  'For every tag format (ID3v1, each ID3v2 version, MP4, Vorbis comments, Matroska) the mapping from generic fields to identifiers and the mapping back are consistent: reading back the identifier used for a field yields that field, a field an identifier '
  'is read as can also be stored, and no two fields share an identifier (except Matroska\'s "ACTOR", which stands for performers and actors). ID3v1 fields are set, read, tested and reported as supported alike. Every short ID3v2 identifier converts to '
  'a long one and back, so that no field is lost when changing the version. A raw data type is known for every MP4 field. The names of MP4 media types, content ratings and account types and the target levels of Matroska tags convert back to the value they stem from.',
  ['inputs'], 'all generic fields and all identifiers of ID3v1, ID3v2, MP4, Matroska, Vorbis/FLAC/Opus tags',
  'Tests use a handful of fields.',
  ['id3/id3v1tag.cpp', 'id3/id3v2tag.cpp', 'id3/id3v2frameids.cpp', 'mp4/mp4tag.cpp', 'mp4/mp4tagfield.cpp', 'mp4/mp4ids.cpp', 'matroska/matroskatag.cpp', 'matroska/matroskatagid.cpp', 'vorbis/vorbiscomment.cpp'],
  [('internallyGetFieldId / internallyGetKnownField', 'id3/id3v2tag.cpp, mp4/mp4tag.cpp, matroska/matroskatag.cpp, vorbis/vorbiscomment.cpp'), ('convertToShortId / convertToLongId', 'id3/id3v2frameids.cpp')],
  'abstract evaluation of the mapping functions over the whole enumeration',
  'The mapping functions are evaluated for every enumerator / identifier from their syntax trees (constants, branches, tables) and the relations are compared.', 'proof')

P('P26', 'Copying, comparing and clearing values takes all of their members into account',
  'Copying or assigning a value class of the library (tag values, tag fields, targets, attachments, chapters, ...) preserves every member. Two values compare equal if and only if all of their members which make up the value are equal and != is the negation '
  '(documented exceptions: the level name of a tag target, the time of a message and the native data of a tag value do not count). A value is reported as empty only if all members which make up its content are empty. The clearing functions reset every '
  'member on every path to what a default-constructed object has. Enumerating the generic fields (as done when inserting values of another tag) visits every field exactly once.',
  ['inputs', 'histories'], 'every value and every pair of values',
  'Tests compare a few values and cannot notice a forgotten member in general.',
  ['tagvalue.cpp', 'tagvalue.h', 'tagtarget.h', 'generictagfield.h', 'localeawarestring.h', 'abstractattachment.cpp', 'abstractchapter.cpp', 'matroska/matroskacues.cpp', 'tag.h'],
  [('copy operations and comparison of tag values', 'tagvalue.cpp'), ('clear functions', 'generictagfield.h, abstractattachment.cpp, tagtarget.h'), ('nextKnownField', 'tag.h')],
  'member-coverage analysis (must-write sets, exact evaluation of comparison expressions)',
  'Each user-provided copy, comparison, emptiness and clearing function is analysed against all data members of its class; comparison expressions are evaluated over all combinations of differing members.')

P('P27', 'Re-parsing starts from a clean state',
  'Resetting a container discards everything learned from the previous parse: every data member parsing may have modified is put back as newly constructed (likewise clearing a file element). '
  'A parse which is attempted again after it has been aborted or has failed does not add to what the previous attempt left behind: lists of tracks, tags, chapters, attachments, elements and pages, '
  'as well as sums like durations and padding sizes, start empty. Parsing a chapter, edition, tag field, cue index or page header again with the same object leaves nothing of its previous contents.',
  ['histories', 'fault_sequences'], 'every sequence of parse (completed, aborted or failed at any point), reset and parse again on the same object',
  'Needs a second parse with the same object after the first one failed or was aborted at a particular point.',
  ['genericcontainer.h', 'abstractcontainer.cpp', 'matroska/matroskacontainer.cpp', 'mp4/mp4container.cpp', 'ogg/oggcontainer.cpp', 'ogg/oggiterator.cpp', 'genericfileelement.h', 'mediafileinfo.cpp', 'matroska/matroskatagfield.cpp', 'mp4/mp4tagfield.cpp'],
  [('reset()/clear() functions', 'genericcontainer.h, abstractcontainer.cpp, */*container.cpp'), ('lists emptied at the start of the parse methods', '*container.cpp, mediafileinfo.cpp')],
  'interprocedural typestate over members (emptied/added to) and write-set coverage of reset functions',
  'Members written by anything reachable from the parse methods must be written on all paths of reset; adding to a member not emptied before in the same attempt taints all exits at which the attempt is not recorded as completed.')

P('P28', 'Multi-byte values use the byte order of their format',
  'All integers and floats of the big-endian formats (MP4, Matroska/EBML, ID3v2, FLAC metadata, ADTS/AVC/AV1/MPEG configuration) are read and written big-endian and those of the little-endian formats (Ogg, Vorbis comments, Opus, RIFF/WAVE/AVI, IVF, '
  'APE, binary popularities) little-endian, by parsers and writers alike, never in the byte order of the host. The only exceptions are CRC-32 values of EBML (little-endian) and identifiers, which are compared with and written as exactly the bytes '
  'the format specifies. Byte order marks are the ones of the text encoding they are written for.',
  ['inputs'], 'every multi-byte field of every format',
  'Tests which could tell need media files of each format; the stable ones have none.',
  ['mp4/', 'matroska/', 'id3/', 'flac/', 'ogg/', 'vorbis/', 'opus/', 'wav/', 'ivf/', 'avi/'],
  [('BinaryReader/BinaryWriter accessors', 'whole library'), ('makeBom', 'id3/id3v2frame.cpp')],
  'type-resolved rule per format directory with value-flow analysis of identifiers',
  'Every resolved BE/LE accessor call is classified by format; other-order accesses must be proven to be identifiers (all uses are comparisons with constants of known identifiers) or CRC-32.')

P('P29', 'Write errors surface before success is reported',
  'Applying changes reports success only after all written data has been flushed with error checking enabled: no output stream is closed, reopened or dropped with unflushed data on a path which ends successfully.',
  ['fault_sequences'], 'an IO error (e.g. disk full) at any written byte',
  'Needs a full disk at a particular byte while a file is rewritten.',
  ['mediafileinfo.cpp', 'mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'ogg/oggcontainer.cpp', 'id3/id3v1tag.cpp'],
  [('explicit flush calls', 'mediafileinfo.cpp, */*container.cpp')],
  'interprocedural typestate of output streams',
  'States clean/dirty per writer function; closing or returning normally in the dirty state is a violation.')

P('P30', 'Objects share no mutable state; an abort request may come from any thread',
  'What the library does with one object never depends on what has been done with other objects before or meanwhile: no variable with static storage duration is modified by the library, the values of function-local statics do not depend on the call which happens to come first, and no functions with hidden or process-wide state are used. Requesting and checking for an abort may happen in different threads; the request is never taken back by the library.',
  ['schedules', 'histories'], 'all interleavings of threads working on distinct objects and all histories of previously processed files',
  'Races depend on the schedule and a static computed from the first file only matters when a second, different one follows; tests process files one by one.',
  ['progressfeedback.h', 'tagvalue.cpp', 'whole library'], [('std::atomic flag', 'progressfeedback.h'), ('constant tables and contexts', 'whole library')],
  'effect rule on all variables with static storage duration over the whole program',
  'Every use of every static variable is classified; initialisers of function-local statics are checked for dependencies; stores to the abort flag are constant true and its type is atomic.')

P('P09', 'Values are set before they are used',
  'Objects of the library come out of every constructor with all scalar data members set which anything reads (sizes, offsets, flags, enumerations, pointers), and no local variable is read on any path on which it has not been set. So what is parsed or written never depends on left-over memory contents, whatever the order and completeness of the elements in the file.',
  ['inputs', 'histories'], 'all orders and subsets of elements within a file and all paths through the functions',
  'Left-over memory is mostly zero or the value of the previous run in tests; a path which skips an assignment needs a file lacking exactly that element.',
  ['abstracttrack.cpp', 'tagvalue.cpp', 'matroska/matroskacontainer.cpp', 'mp4/mp4container.cpp', 'whole library'], [('constructors and member initialisers', 'all headers'), ('function-wide variables of the writers', 'matroska/matroskacontainer.cpp')],
  'must-assign typestate over constructors; path-sensitive definite-assignment dataflow over locals',
  'Every scalar member without initialiser is followed through every constructor; every local declared without value is followed along all paths (correlated tests of flags and pointers are respected) to its reads.')

P('P07', 'Every loop makes progress on each of its turns',
  'On every path through the body of a loop, including those via continue and handled exceptions, the loop comes closer to its end: a counter or remaining size moves by a non-zero amount towards a bound it can reach (it is not narrower than the bound and the bound does not move away), a pointer or iterator moves on along a finite chain or container which is not grown meanwhile, or the position of the throwing input stream moves forwards in total. So no input, however broken, makes parsing or saving hang. (The computations of the MP4 and Matroska writers which jump back until sizes fit are not decided.)',
  ['inputs'], 'all inputs: all paths through all loops, including handled exceptions',
  'A loop stalls only for the one denoted size, missing element or error leading to a turn without progress; tests only contain files on which the loops end.',
  ['id3/id3v2tag.cpp', 'flac/flacstream.cpp', 'ogg/oggiterator.cpp', 'matroska/ebmlelement.cpp', 'mpegaudio/mpegaudioframestream.cpp', 'mp4/mp4track.cpp'],
  [('continuing with the next frame, element or page', 'parsers of all formats'), ('loops over fields, tracks and chunks', 'writers of all formats')],
  'natural-loop analysis on the control-flow graphs: progress measures which cut all cycles, minimal advance of the stream per turn as shortest path',
  'All natural loops; per loop the steps of acceptable measures (exit test between two steps, bound fixed and wide enough, non-zero steps) have to cut all cycles, or the shortest path through the body in terms of bytes consumed (callees and exceptional exits included, seeks back negative) has to be positive. Eleven loops ending for other reasons are listed with the reason and only have to change something.')

P('P05', 'Nothing outside of a buffer is read or written',
  'Whatever the file contains and whatever values are assigned: when fields are taken from or put into buffers, every array subscript, pointer dereference, conversion of several bytes, block copy, view and stream transfer stays within the array, allocation, string or size passed along it belongs to. This covers the ID3v1/ID3v2, Vorbis comment, FLAC, Ogg page header, EBML/Matroska, MP4, MPEG audio, ADTS, AVC, WAVE, IVF and tag value code (lookup tables included). '
  'Not covered: the AAC frame parser; accessors and iterators which document that their position has to be valid (GenericContainer::tag/track, OggIterator); buffers filled by an earlier call (copyBuffer, StreamDataBlock); play counter/popularimeter making.',
  ['inputs'], 'all file contents, all denoted sizes and all assigned values',
  'An access is out of bounds only for the one denoted size or index the code forgot to check, and mostly goes unnoticed even then.',
  ['id3/id3v2frame.cpp', 'id3/id3v1tag.cpp', 'vorbis/vorbiscommentfield.cpp', 'flac/flacmetadata.cpp', 'matroska/ebmlelement.cpp', 'mp4/mp4track.cpp', 'mp4/mp4tagfield.cpp', 'mpegaudio/mpegaudioframe.cpp', 'tagvalue.cpp'],
  [('size checks before taking fields from buffers', 'parsers of all formats'), ('allocation of computed sizes', 'makers of all formats')],
  'relational abstract interpretation (difference bounds over sizes, offsets and their sums) with contracts for parameters inferred over the call graph',
  'Every access obligation of about 580; a pointer parameter together with a following size is a contract proven at each call; what depends on validity established by earlier calls is listed by function and not decided.')

P('P06', 'Nothing is used after it was invalidated, released or moved away',
  'A reference, pointer, iterator or string view held in a local variable is never used on a path on which the storage it refers to has been given up before: by adding elements to the vector or string it points into, by erasing or clearing, by resetting or assigning the owning smart pointer, by deleting, by leaving the scope of the variable or, for temporaries, the end of the statement -- no matter whether that happens in the function itself or in one it calls. Objects which have been moved from (and smart pointers which have been reset) are not read or dereferenced before being assigned again. No function returns a reference, pointer, iterator or view to something which ends with the call. '
  'Not covered: pointers kept in members or in containers beyond the function, and invalidation which is only reachable through unrelated aliases of the same object.',
  ['inputs', 'histories'], 'all paths through every function of the library',
  'Dangling references mostly keep working as the memory has not been reused yet or the vector had spare capacity; the failure needs a certain number of elements.',
  ['ogg/oggcontainer.cpp', 'genericcontainer.h', 'mediafileinfo.cpp', 'mp4/mp4tagfield.cpp', 'vorbis/vorbiscomment.cpp', 'matroska/matroskacontainer.cpp', 'genericfileelement.h'],
  [('containers of pages, tags, tracks, fields and elements', 'whole library'), ('moving values into fields', 'parsers of all formats')],
  'flow-sensitive lifetime analysis over access paths with interprocedural invalidation and return summaries',
  'Each use of about 2500 of local holders is checked against the invalidations on all paths to it; paths are access paths from variables and members through containers and owners.')

NA = []


def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append({'id': id, 'title': title, 'statement': statement, 'quantifier': q(over, text), 'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [m(*x) for x in mech]}, 'reason': reason})


N('N01', 'Tags written are read back unchanged',
  'Every value assigned to a field and written to a file is read back equal (up to documented encoding conversions) by parsing the written file.',
  ['inputs'], 'all values, fields, formats', 'Needs all combinations of values and formats.', ['tagvalue.cpp', 'id3/id3v2frame.cpp', 'mp4/mp4tagfield.cpp'],
  [('parser/maker pairs', '*/*')],
  'Round-trip equality quantifies over runtime bytes produced by one function and consumed by another; no static argument in reach bounds it (its structural clauses are P19, P22, P25 and P28).')
N('N02', 'Media data is preserved byte for byte',
  'Applying changes never alters the audio/video data itself; chunk offsets, cues and seek tables point to the same data as before.',
  ['inputs'], 'all files', 'Needs large real-world files.', ['mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'matroska/matroskacues.cpp'],
  [('offset updates', 'mp4/mp4track.cpp')],
  'Depends on runtime offsets and sizes computed over the whole file layout; static analysis cannot relate them (the aborted-copy and flush clauses are decided by P12 and P29).')
N('N03', 'Text conversions between encodings are correct',
  'Converting a value between Latin-1, UTF-8 and UTF-16 preserves the text and byte order marks are handled consistently.',
  ['inputs'], 'all strings', 'Infinite input space.', ['tagvalue.cpp'], [('convertDataEncoding', 'tagvalue.cpp')],
  'A numeric/byte-level property of conversion routines of an external library.')
N('N04', 'Durations, bitrates and sizes reported are accurate',
  'Reported technical properties (duration, bitrate, sample count, size) equal those of the media.',
  ['inputs'], 'all media files', 'Needs reference media.', ['mp4/mp4track.cpp', 'mpegaudio/mpegaudioframestream.cpp'], [('track header parsing', '*/')],
  'Numerical results of format-specific computations; there is no static oracle for them.')
N('N05', 'Resulting padding respects the configured limits',
  'After applying changes the padding lies between the configured minimum and maximum or the file has been rewritten with the preferred padding.',
  ['inputs', 'configurations'], 'all sizes and settings', 'Arithmetic over runtime sizes.', ['mp4/mp4container.cpp', 'matroska/matroskacontainer.cpp', 'mediafileinfo.cpp'],
  [('rewrite decision', 'mp4/mp4container.cpp')],
  'The decision is arithmetic over runtime element sizes with iteration; no structural necessary condition beyond the code itself.')
