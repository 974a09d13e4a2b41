#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)))
S='geodiff/src/'
SD=S+'drivers/sqlitedriver.cpp'; SU=S+'drivers/sqliteutils.cpp'; GC=S+'geodiff.cpp'; RB=S+'geodiffrebase.cpp'
RD=S+'changesetreader.cpp'; WR=S+'changesetwriter.cpp'; CU=S+'changesetutils.cpp'; GU=S+'geodiffutils.cpp'; LG=S+'geodifflogger.cpp'

p('C01','Diff then apply reproduces the modified database exactly',
  'For every pair of SQLite databases BASE and MODIFIED with the same schema, the changeset written by createChangeset, applied to a copy of BASE by applyChangeset, succeeds and leaves in every keyed table exactly the rows of MODIFIED: same keys, same storage class and same bytes in every column. Tables without a primary key are left as they were in BASE.',
  ['inputs'],'All pairs of databases over any number of tables, composite / text / blob / integer keys, all storage classes (NULL, 64-bit integers, reals, text incl. quotes, non-ASCII and NUL bytes, blobs), arbitrary table and column names. Rows with NULL in their key count as rows of a table without a key. Assumed: the databases have the same text encoding, key columns have the default collation, keys do not differ only as an integer and the same real number, values do not differ only as 0.0 and -0.0, fewer columns than SQLite\'s expression depth allows (about 990).',
  'Tests diff a dozen fixed GeoPackages and none of them is in the buildable suite; values, key shapes and table mixes are the unbounded dimension.',
  [SD,WR,RD,GC],[('three SELECTs per table (inserted, deleted, modified rows)',SD+' handleInserted/handleUpdated'),('prepared INSERT/UPDATE/DELETE replay',SD+' SqliteDriver::applyChangeset')],
  [('rows','primary key -> column values of every keyed table','SQLite database files')],['return codes of createChangeset and applyChangeset','row dump of the patched database'])
p('C02','A changeset lists exactly the rows that differ, once each',
  'The changeset created from BASE to MODIFIED contains exactly one entry per key whose row differs: INSERT with all new values, DELETE with all old values, or UPDATE with the old key, and old and new values of exactly the changed columns (unchanged columns undefined on both sides). Two databases with equal rows give an empty (zero-byte) changeset, and for any changeset file written by the library hasChanges reports 1 if it has entries and 0 otherwise, and changesCount the exact number of entries.',
  ['inputs'],'All pairs of databases as in C01, including equal ones, changes from and to NULL, and several tables of which only some changed.',
  'Tests compare a few hand-made changesets or only counts; minimality and absence of spurious entries is a for-all over row contents.',
  [SD,GC,WR],[('typed comparison of old and new values, undefined for unchanged ones',SD+' handleUpdated/valuesEqual'),('table header only when a table has changes',SD+' handleInserted')],
  None,['decoded changeset file','GEODIFF_hasChanges / GEODIFF_changesCount'])
p('C03','Inverting a changeset gives its exact undo, and inverting twice the original',
  'For a changeset from BASE to MODIFIED, the inverted changeset applied to MODIFIED succeeds and gives back BASE exactly; every INSERT becomes a DELETE of the same values and vice versa, every UPDATE has its old and new values exchanged while keeping the key on the old side, in every table. Inverting twice yields a changeset with the same changes as the original.',
  ['inputs','histories'],'All well-formed changesets: any tables (several, interleaved or repeated headers), key shapes, operations and values; also chains of changesets undone in reverse order.',
  'Tests invert one insert, one update and one delete.',
  [CU,GC],[('entry-wise inversion with key columns kept on the old side',CU+' invertChangeset')],None,['decoded inverted file','row dump after applying it'])
p('C04','Applying a changeset that does not fit fails and changes nothing',
  'applyChangeset succeeds only if every entry fits the database: an INSERT needs its key to be free, a DELETE needs a row with that key whose current values all equal the recorded ones, an UPDATE one whose current values of the columns it changes equal the recorded old ones; then the result is exactly the recorded effect. If any entry does not fit, or a constraint refuses it, the call returns an error, a warning names the conflict, and no row of any table (nor any trigger) is changed, no matter how many entries fitted before or after it.',
  ['inputs','histories'],'All databases and all well-formed changesets over the same tables, fitting or not, with the misfit at any position, in any operation and column, including changesets of other database states and re-application of the same changeset.',
  'One test applies one conflicting changeset; the position and kind of misfit and the number of tables are unbounded.',
  [SD],[('WHERE clause with old values, change counter, conflict counter',SD+' SqliteDriver::applyChangeset'),('savepoint rolled back unless there were no conflicts',SD+' Sqlite3SavepointTransaction')],
  [('conflictCount','conflicts met so far',SD)],['return code','row dump before and after','logger warnings'])
p('C05','Applying is atomic for crashes and for concurrent readers',
  'If the process applying a changeset (or performing an in-place rebase) is killed at any moment, reopening the database shows either all of its rows before the call or all of its rows after it; triggers are never lost. Another connection reading meanwhile also sees only one of these two states (or is told the database is busy).',
  ['crash_points','schedules'],'Every interruption point between two file system operations of the call, for changesets of several tables and many pages, with and without user triggers, and a reader at every such point.',
  'No test interrupts the library or reads concurrently.',
  [SD,GC],[('single savepoint transaction around all entries and trigger re-creation',SD+' SqliteDriver::applyChangeset'),('rebase applies one concatenated changeset',GC+' GEODIFF_rebaseEx')],
  None,['database file after SIGKILL at the n-th write','reads of a second process'])
p('C06','Rebase merges edits: both sides kept, delete wins, mine wins per column',
  'For BASE with two sets of edits THEIRS and MINE, the rebased changeset applied to THEIRS succeeds and yields, for every key of BASE: no row if either side deleted it, otherwise for each column my value where I changed it and their value elsewhere; every row inserted by only one side is present unchanged. Tables edited by only one side end up as that side has them, and with THEIRS empty the rebased changeset carries exactly my changes, with MINE empty it carries none.',
  ['inputs'],'All triples (BASE, THEIRS, MINE) over any number of tables with a single-column integer or text key and all combinations per row of untouched / inserted / updated in any subset of columns / deleted on the two sides.',
  'Tests cover ten fixed combinations of two small layers (and are not in the buildable suite).',
  [RB,GC],[('per-table sets of inserted/deleted/updated keys and re-based entries',RB+' _handle_insert/_handle_delete/_handle_update')],
  [('TableRebaseInfo','keys inserted, deleted, updated by theirs',RB)],['row dump of THEIRS after applying the rebased changeset'])
p('C07','Rows inserted by both sides under the same key are all kept, with fresh keys',
  'When both sides inserted rows under the same key, the rebase keeps their row at that key and my row, with all its other values unchanged, under a new key that no row of BASE, THEIRS or of my other rows uses; distinct rows of mine get distinct keys. If both sides inserted no common key into a table, all of my rows there keep their keys; otherwise a row of mine changes its key only if that key was taken by theirs or handed out in the renumbering.',
  ['inputs'],'Any sets of keys inserted by the two sides (overlapping, interleaved, with gaps, large, negative), in several tables.',
  'One test uses keys 4,5 against 4,5,6; renumbering chains depend on the exact shape of both key sets.',
  [RB],[('first free key and second pass over unmapped inserts',RB+' _find_mapping_for_new_changeset')],[('RebaseMapping','old key -> new key',RB)],['row dump after applying the rebased changeset'])
p('C08','The conflict file reports exactly the columns that both sides changed',
  'Rebase writes one conflict entry for exactly those rows that both sides updated in at least one common column, naming table and key, and in it exactly the common columns, each with the value in BASE, their value and my value; the last-change column of gpkg_contents is never reported. If there is no such row, no conflict file exists after a successful call, even if one existed before.',
  ['inputs'],'All triples as in C06, values of all types (incl. NULL, text needing escapes, blobs).',
  'Tests only grep the conflict file for the word "fid" or check that it exists.',
  [RB,CU,GC],[('conflict collection while re-basing updates',RB+' _handle_update/_addConflictItem'),('JSON writer',CU+' conflictToJSON')],None,['parsed conflict JSON file'])
p('C09','In-place rebase equals their version plus the rebased changes',
  'After a successful in-place rebase (rebase, rebaseEx) of MODIFIED, MODIFIED holds exactly what applying the rebased changeset to THEIRS gives, with the same conflict file; if THEIRS equals BASE it keeps its rows, and if MODIFIED equals BASE it becomes THEIRS. It succeeds whenever creating and applying the rebased changeset succeeds (it does not need the checks for foreign keys and triggers). If the call fails, MODIFIED keeps its rows.',
  ['inputs'],'All triples as in C06/C07, including renumbered inserts, and the trivial cases.',
  'Tests compare two or three fixed merges.',
  [GC,RB],[('invert + concatenate + apply at once',GC+' GEODIFF_rebaseEx'),('sqlite3changegroup concatenation',RB+' concatChangesets')],None,['row dump of MODIFIED'])
p('C10','No call changes its inputs or leaves other files behind',
  'Every call leaves all of its input databases and changesets byte-for-byte unchanged (for the database that apply and rebase are asked to modify: its other contents), writes only the output files named in the call, and on return, success or failure, has removed every temporary file, journal or lock it created, next to the inputs and in the temporary directory.',
  ['inputs','fault_sequences'],'All calls of the API with all combinations of empty, equal, conflicting, malformed and missing inputs, successful and failing, with the working, data and temporary directories observed.',
  'Tests never look at the inputs or at the directory after a call.',
  [GC,GU,RB],[('RAII temporary files',GU+' TmpFile'),('copying for trivial rebases',RB+' rebase')],None,['recursive hash of the scratch directories before and after each call'])
p('C11','Changeset files follow the documented format and interoperate with SQLite',
  'Every changeset file written by any call conforms to the documented binary format (and so decodes, with exactly the same changes, in SQLite\'s session extension), and every changeset produced by the SQLite session extension is accepted with the same meaning (SQLite itself applies geodiff changesets of tables with one-column keys). Reading back a written file gives the same tables, key flags, operations and values for every value, including 64-bit integers, all real bit patterns, and text or blobs of any length.',
  ['inputs'],'All values and lengths (varint boundaries 127/128, 16383/16384, 2097151/2097152), any number of tables, columns and entries.',
  'Reader tests decode three files; the writer is exercised with one-table files of short values.',
  [WR,RD,S+'changesetvarint.h','docs/changeset-format.md'],[('writer',WR),('reader',RD),('varints',S+'changesetvarint.h')],None,['bytes of changeset files'])
p('C12','Malformed changesets are rejected cleanly and change nothing',
  'Given an arbitrary byte sequence as a changeset, every call that reads it terminates with a return code, never crashes, reads out of bounds, hangs or lets an exception escape; a malformed file (cut off inside a header or an entry, an unknown type of record or value, an entry before any header) yields an error code from every call that reads its entries (all but hasChanges). A database it is applied to is unchanged unless the call succeeds.',
  ['inputs'],'All byte strings: truncations of valid files at every offset, single and multiple byte corruptions, inconsistent headers, wrong column counts or key flags, unknown tables, oversized lengths.',
  'Tests only read valid files.',
  [RD,GC,SD,RB,CU],[('bounds checks in the reader',RD),('table and column checks on apply',SD+' applyChangeset')],None,['process exit status under AddressSanitizer','return codes','row dump'])
p('C13','JSON listings and summaries describe the changeset faithfully',
  'listChanges writes valid JSON that contains, in order, one object per entry with its table, operation and for every defined column its index and old / new values (text and integers exactly, blobs in base64, NULL as null, reals to six decimals); listChangesSummary writes valid JSON with one object per changed table and the exact numbers of inserts, updates and deletes.',
  ['inputs'],'All well-formed changesets with valid UTF-8 text (incl. quotes, backslashes, control characters, non-ASCII), reals (infinity as a number out of range, NaN as null), arbitrary table names, empty changesets.',
  'Tests compare the listing of one small changeset as text.',
  [CU,GC],[('entry formatting and escaping',CU+' changesetEntryToJSON/escapeJSONString'),('per-table counters',CU+' changesetToJSONSummary')],None,['parsed JSON files'])
p('C14','Databases or changesets with a different schema are refused',
  'createChangeset returns an error when the two databases do not have the same tables or a table differs in column names, types, order, NOT NULL, or key columns (as a set). applyChangeset returns an error and changes nothing when a changeset names a table the database does not have, or one with another number of columns or other key columns.',
  ['inputs','configurations'],'All pairs of schemas differing in any one aspect, in any of the tables, at any column.',
  'Six fixed schema modifications are tested for createChangeset, none for apply.',
  [SD,S+'tableschema.h',S+'tableschema.cpp'],[('schema comparison',SD+' createChangeset, tableschema.h operator=='),('column count and key check',SD+' applyChangeset')],None,['return codes','row dump'])
p('C15','Rebase refuses databases with foreign keys or unknown triggers',
  'createRebasedChangeset returns an error, and writes neither a rebased changeset nor a conflict file, when a user table of the modified database has a foreign key or the database has a trigger that is not one of the known GeoPackage ones; otherwise these features never make it fail.',
  ['configurations','inputs'],'All schemas with any subset of foreign keys (explicit or implicit parent column, any letter case, multi-column, any table) and triggers (user or GeoPackage ones), whatever the edits.',
  'One test checks one foreign-key database.',
  [SD,SU,GC],[('checkCompatibleForRebase',SD),('trigger and foreign key listing',SU)],None,['return code','existence of output files'])
p('C16','Applying ignores and preserves user triggers, and keeps GeoPackage ones active',
  'A user trigger never fires because of applyChangeset, so that the result is exactly the recorded changes, and after the call, successful or not, the database has exactly the same triggers with the same definitions as before. Triggers that maintain GeoPackage metadata (feature counts, spatial index) do fire.',
  ['inputs','configurations'],'Any set of triggers on any tables (before/after/instead of, insert/update/delete, names needing quotes, triggers writing to other changed tables or raising errors), any changeset, fitting or not.',
  'One GeoPackage with standard triggers is tested.',
  [SD,SU],[('user triggers dropped and recreated inside the transaction',SD+' applyChangeset'),('recognised prefixes',SU+' sqliteTriggers')],None,['sqlite_master triggers and row dump before and after'])
p('C17','Dumping all data gives a changeset that recreates the database',
  'dumpData writes a changeset with exactly one INSERT with all values per row of every keyed table, so that applying it to an empty database of the same schema reproduces all rows exactly; it equals the changeset from an empty database of the same schema.',
  ['inputs'],'All databases as in C01.',
  'dumpData is only used indirectly by one test.',
  [SD,GC],[('SELECT of all rows of every table',SD+' dumpData')],None,['decoded changeset','row dump'])
p('C18','Concurrent processes working on different files do not disturb each other',
  'Any number of processes that call the library at the same time, sharing the temporary directory and the read-only inputs but with different outputs, each get the same result as if run alone.',
  ['schedules'],'All interleavings of the file operations of concurrent rebases, copies, diffs and applies that share the temporary directory, started from identical process states.',
  'All tests run one process.',
  [GC,GU],[('random names of temporary files',GU+' randomString/tmpdir')],None,['results of processes paused at chosen points while others run to completion'])
p('C19','Clients that sync through rebase converge and lose no edits',
  'Starting from one common database, when any number of clients edit their copies, and each sync makes a client fetch the server changes since its last version, rebase its own on top and push the rebased changeset, then every push applies cleanly to the server version, after all clients have synced and then each once more without new edits all copies equal the server, and every row inserted and not deleted by anybody, and every column value last pushed, is there.',
  ['histories'],'All histories of edits and syncs of up to several clients, including simultaneous inserts with the same keys, edits of the same rows, deletes, and clients that skip several versions. Assumed: a new row gets a key above all keys in the copy of the client and in the version it fetched last; if the key of a deleted row is used again for a new one before some other client synced, only convergence is demanded.',
  'Tests perform at most two merges in a row on fixed data.',
  [GC,RB,SD],[('createChangeset, createRebasedChangeset/rebase and applyChangeset composed',GC)],[('server versions','chain of changesets',''),],['row dumps of all copies after every step'])
p('C20','A call that could not read or write everything does not report success',
  'If any write to an output file fails (full disk, size limit, unwritable location) or any read of an input database fails or finds it locked, the call returns an error; whenever a call reports success, its outputs are complete. A failed apply or in-place rebase leaves the database rows unchanged (as seen after reopening it).',
  ['fault_sequences'],'A fault at every single read, write, lock or sync operation of every call, and output sinks that refuse data at every size.',
  'No test injects a fault.',
  [WR,GU,GC,SD,SU],[('stream state checks',WR+', '+GU+' flushString'),('SQLite result codes',SU+', '+SD)],None,['return code against completeness of the output under injected faults'])
p('C21','Argument errors, missing files and logging follow the documented contract',
  'Every call given a missing required argument, a file it has to read that does not exist, an unknown driver or an output location that does not exist returns its documented error value (1, or -1 for hasChanges and changesCount), logs at least one error and leaves all files as they were; whatever the reason for which a call fails, it logs at least one error. The logger callback receives exactly the messages whose level is at most the maximum level set (level 1 by default or as set by the environment), and none when set to 0 or without a callback, without any effect on results.',
  ['inputs','configurations'],'Every call, every subset of missing arguments and files, every other reason to fail (misfits, malformed or damaged files, refusals, faults), every log level and environment setting.',
  'Two or three NULL or missing-file cases are tested.',
  [GC,LG],[('argument checks',GC),('level filter',LG)],None,['return codes','messages received by the callback'])
p('C22','The outcome of a call does not depend on earlier calls of the process',
  'Each call in a process, whatever calls succeeded or failed before it, gives the same return code, messages and outputs as in a fresh process, and on return holds no lock or open file, so that another process can immediately read and write all files involved.',
  ['histories'],'All sequences of calls, including failing ones (conflicts, malformed input, missing files), on shared and on different files.',
  'Each test makes a handful of successful calls and never checks resources.',
  [GC,SD,SU],[('drivers, readers, writers and statements owned by the call',GC)],None,['results compared with fresh processes','/proc/self/fd of the process','a writer in another process'])
p('C23','geodiffinfo and pygeodiff give exactly the outcomes of the C API',
  'Every call through the command line tool geodiffinfo or through the Python classes GeoDiff and GeoDiffLib has the same effects on files as the same call through the C API on the same files, and its outcome tells the same: geodiffinfo exits with 0 exactly if the C call returns success (has the documented arguments of every mode; an unknown mode or a wrong number of arguments changes no file and exits with 1; "version" prints the version of the library), and the Python methods return the same results, or raise GeoDiffLibConflictError, GeoDiffLibUnsupportedChangeError or GeoDiffLibError exactly by the return code. The messages are those of the C call up to the level set (default: warnings for geodiffinfo). Loading a library of another version raises GeoDiffLibVersionError.',
  ['inputs','configurations'],'All modes and methods, all numbers of arguments, all return codes, right and wrong arguments, names with any characters, all log levels.',
  'The Python tests make a few successful calls; geodiffinfo has no test at all.',
  [S+'geodiffinfo.cpp','pygeodiff/geodifflib.py','pygeodiff/main.py'],[('argument parsing and exit code',S+'geodiffinfo.cpp'),('ctypes calls and translation of return codes','pygeodiff/geodifflib.py')],None,['exit status or exception, output files and messages compared with the C call on the same files'])
p('C24','The outcome of a call depends only on what its files hold, not on their names',
  'The outcome of a call (return code and contents of its outputs) is a function of the contents of the files given: it is the same whatever the names of the files and directories (spaces, quotes, characters with a meaning in SQL, URIs, shells or JSON, other scripts, long names), whether paths are absolute, relative, through symbolic links or with redundant parts, wherever the files and the directory for temporary files are, and whatever the working directory, environment variables and locale of the process.',
  ['inputs','configurations'],'All file names that the file system allows, all placements of inputs and outputs, all environments and locales. Assumed: a relative name that begins with "file:" may be a URI for SQLite.',
  'Tests use one plain directory, one environment and one locale.',
  [SD,SU,CU,GU,GC],[('ATTACH of the second database by name',SD),('temporary files',GU+' tmpdir/TmpFile'),('files of outputs and temporary files named after outputs',GC+', '+RB),('numbers in JSON',CU)],None,['the same call on the same contents with plain names'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
