"""Planted bugs. edits: (file below geodiff/src, old text, new text)."""
S = SEEDS = []
def bug(id, property, needs, breaks, edits, demo): S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
RB, GD, SD, SU, CR, CW, CU, GU = 'geodiffrebase.cpp', 'geodiff.cpp', 'drivers/sqlitedriver.cpp', 'drivers/sqliteutils.cpp', 'changesetreader.cpp', 'changesetwriter.cpp', 'changesetutils.cpp', 'geodiffutils.cpp'

bug('c07-chain', 'C07', 'inserts of mine under two taken keys and two further inserts under the keys these get',
    'two inserted rows of mine end up under the same key when renumbering pushes a chain of rows',
    [(RB, '        usedNewPkeys.insert( it->second );\n', '')], '''
T = 'create table t(id integer primary key, v text);'
db('b.db', T); edit('b.db', 't.db', "insert into t values (1,'t1'),(2,'t2'),(3,'t3')")
edit('b.db', 'm.db', "insert into t values (1,'m1'),(2,'m2'),(4,'m4'),(5,'m5'),(6,'m6'),(7,'m7')")
ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
ok(call('createRebasedChangeset', 'b.db', 'm.db', 't.diff', 'r.diff', 'c.json'), 'createRebasedChangeset')
edit('t.db', 'f.db'); ok(call('applyChangeset', 'f.db', 'r.diff'), 'applying the rebased changeset')
R = rows('f.db', 'select id, v from t')
check(sorted(r[1] for r in R) == [b'm1', b'm2', b'm4', b'm5', b'm6', b'm7', b't1', b't2', b't3'], 'rows %s' % R)
''')

bug('c06-delete-null', 'C06', 'theirs sets a column to NULL in a row that mine deletes',
    'the rebased DELETE still records the value of BASE, so that it does not fit THEIRS',
    [(RB, 'const Value &patchedVal = patchedVals[i];\n      if ( patchedVal.type() != Value::TypeUndefined )', 'const Value &patchedVal = patchedVals[i];\n      if ( patchedVal.type() != Value::TypeUndefined && patchedVal.type() != Value::TypeNull )')], '''
T = "create table t(id integer primary key, v text, w int); insert into t values (1,'a',1),(2,'b',2),(3,'c',3);"
db('b.db', T); edit('b.db', 't.db', 'update t set v = null where id = 2'); edit('b.db', 'm.db', "delete from t where id = 2; update t set w = 9 where id = 3")
ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
ok(call('createRebasedChangeset', 'b.db', 'm.db', 't.diff', 'r.diff', 'c.json'), 'createRebasedChangeset')
edit('t.db', 'f.db'); ok(call('applyChangeset', 'f.db', 'r.diff'), 'applying the rebased changeset')
check(rows('f.db', 'select id, v, w from t order by id') == [(1, b'a', 1), (3, b'c', 9)], 'rows')
''')

bug('c08-gpkg-columns', 'C08', 'both sides change the fifth column of a GeoPackage table other than gpkg_contents',
    'conflicts in the fifth column of every gpkg_ table are dropped from the conflict file',
    [(RB, 'if ( ( conflictFeature.tableName() == "gpkg_contents" ) && ( i == 4 ) )', 'if ( startsWith( conflictFeature.tableName(), "gpkg_" ) && ( i == 4 ) )')], '''
import json
T = "create table gpkg_metadata(id integer primary key, a, b, c, metadata text); insert into gpkg_metadata values (1,1,1,1,'x');"
db('b.db', T); edit('b.db', 't.db', "update gpkg_metadata set metadata = 't'"); edit('b.db', 'm.db', "update gpkg_metadata set metadata = 'm', b = 5")
ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
ok(call('createRebasedChangeset', 'b.db', 'm.db', 't.diff', 'r.diff', 'c.json'), 'createRebasedChangeset')
check(os.path.exists('c.json'), 'no conflict file')
check(json.load(open('c.json'))['geodiff'][0]['changes'] == [dict(column=4, base='x', old='t', new='m')], open('c.json').read())
''')

bug('c11-varint', 'C11', 'a text or blob of 16384 to 32767 bytes',
    'the length of values of 16384..32767 bytes is written in two bytes and loses its top bit',
    [('changesetvarint.h', '  if ( v <= 0x3fff )\n', '  if ( v <= 0x7fff )\n')], '''
T = "create table t(id integer primary key, v blob);"
db('b.db', T)
for n in (100, 127, 128, 16383, 16384, 20000, 32767, 32768):
    edit('b.db', 'm.db', 'insert into t values (1, zeroblob(%d)), (2, 5)' % n)
    ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
    check(call('changesCount', 'd.diff') == 2, 'changes with %d bytes' % n)
    edit('b.db', 'f.db'); ok(call('applyChangeset', 'f.db', 'd.diff'), 'applyChangeset with %d bytes' % n)
    check(rows('f.db', 'select id, length(v) from t') == [(1, n), (2, 1)], 'rows with %d bytes' % n)
''')

bug('c10-leftover', 'C10', 'an in-place rebase that fails when the result is applied (e.g. both sides inserted the same UNIQUE value)',
    'the changeset that was to be applied stays behind in the temporary directory when the rebase fails',
    [(GD, '    TmpFile modified2final( root + "_modified2final.bin" );\n    bool error = concatChangesets( modified2base.path(), base2their, theirs2final.path(), modified2final.path() );',
      '    const std::string modified2final = root + "_modified2final.bin";\n    bool error = concatChangesets( modified2base.path(), base2their, theirs2final.path(), modified2final );'),
     (GD, '    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2final.c_path() ) != GEODIFF_SUCCESS )\n    {\n      Logger::instance().error( "Unable to perform GEODIFF_applyChangeset modified2final" );\n      return GEODIFF_ERROR;\n    }\n',
      '    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2final.c_str() ) != GEODIFF_SUCCESS )\n    {\n      Logger::instance().error( "Unable to perform GEODIFF_applyChangeset modified2final" );\n      return GEODIFF_ERROR;\n    }\n    fileremove( modified2final );\n')], '''
db('b.db', "create table t(id integer primary key, u unique, v); insert into t values (1,'a',0);")
edit('b.db', 't.db', "insert into t values (2,'x',1)"); edit('b.db', 'm.db', "insert into t values (2,'x',2)"); edit('b.db', 'k.db', "insert into t values (2,'y',2)")
ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
before = set(os.listdir('.')); tb = set(os.listdir('tmp')); was = rows('m.db', 'select * from t')
ok(call('rebaseEx', 'sqlite', '', 'b.db', 'k.db', 't.diff', 'c.json'), 'rebaseEx')
check(call('rebaseEx', 'sqlite', '', 'b.db', 'm.db', 't.diff', 'c.json') != 0, 'a rebase onto an equal unique value succeeds')
check(rows('m.db', 'select * from t') == was, 'changed by a rebase that failed')
check(set(os.listdir('.')) - {'c.json'} == before and set(os.listdir('tmp')) == tb, 'left behind: %s' % (set(os.listdir('tmp')) - tb))
''')

bug('c16-trigger-prefix', 'C16', 'a user trigger whose name starts with trigger_',
    'user triggers named trigger_* are taken for GeoPackage ones: they fire during apply and change further rows',
    [(SU, '    if ( startsWith( triggerName, "trigger_insert_feature_count_" ) )\n      continue;\n    if ( startsWith( triggerName, "trigger_delete_feature_count_" ) )\n      continue;', '    if ( startsWith( triggerName, "trigger_" ) )\n      continue;')], '''
T = "create table t(id integer primary key, v); create table log(id integer primary key, v); insert into t values (1,1);"
db('b.db', T, "create trigger trigger_log after update on t begin insert into log(v) values (new.v); end;")
db('m.db', T, "update t set v = 2;", "create trigger trigger_log after update on t begin insert into log(v) values (new.v); end;")
ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
ok(call('applyChangeset', 'b.db', 'd.diff'), 'applyChangeset')
check(rows('b.db', 'select id, v from t') == [(1, 2)] and rows('b.db', 'select * from log') == [], 'rows: %s' % rows('b.db', 'select * from log'))
check(len(rows('b.db', "select name from sqlite_master where type = 'trigger'")) == 1, 'trigger lost')
''')

bug('c04-total-changes', 'C04', 'a DELETE that matches no row after an entry that did change something',
    'a DELETE that does not fit is not noticed when an earlier entry of the changeset has been applied',
    [(SD, '      if ( sqlite3_changes( mDb->get() ) == 0 )\n      {\n        // either the row with such pkey does not exist or its data have been modified\n        logApplyConflict( "delete_nothing", entry );', '      if ( sqlite3_total_changes( mDb->get() ) == 0 )\n      {\n        // either the row with such pkey does not exist or its data have been modified\n        logApplyConflict( "delete_nothing", entry );')], '''
T = "create table t(id integer primary key, v); insert into t values (1,1),(2,2),(3,3);"
db('b.db', T); edit('b.db', 'm.db', 'insert into t values (4,4); delete from t where id in (2, 3)')
edit('b.db', 'x.db', 'update t set v = 7 where id = 3')
ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
rc = call('applyChangeset', 'x.db', 'd.diff')
check(rc != 0, 'applied although a row to be deleted differs'); check(rows('x.db', 'select * from t') == [(1, 1), (2, 2), (3, 7)], 'rows')
''')

bug('c01-int32', 'C01', 'two integers that differ only in their upper 32 bits',
    'a change of an integer by a multiple of 2^32 is recorded as an update without any value',
    [(SD, 'return sqlite3_value_int64( v1 ) == sqlite3_value_int64( v2 );', 'return sqlite3_value_int( v1 ) == sqlite3_value_int( v2 );')], '''
T = "create table t(id integer primary key, v int, w int); insert into t values (1, 5, 1), (2, 7, 1);"
db('b.db', T); edit('b.db', 'm.db', 'update t set v = v + (1 << 32) where id = 1; update t set w = 2')
ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset'); edit('b.db', 'f.db'); ok(call('applyChangeset', 'f.db', 'd.diff'), 'applyChangeset')
check(rows('f.db', 'select * from t') == rows('m.db', 'select * from t'), 'rows %s' % rows('f.db', 'select * from t'))
''')

bug('c03-composite', 'C03', 'an UPDATE in a table whose primary key has several columns',
    'only the first key column is kept on the old side of an inverted UPDATE',
    [(CU, '          out.newValues[i].setUndefined();\n', '          out.newValues[i].setUndefined();\n          break;\n'),
     (CU, '        if ( currentPkeys[i] && out.oldValues[i].type() == Value::TypeUndefined )\n        {', '        if ( currentPkeys[i] && ( out.oldValues[i].type() == Value::TypeUndefined ) )\n        {')], '''
T = "create table t(a int, b text, c, primary key (a, b)); insert into t values (1,'x',1),(1,'y',2);"
db('b.db', T); edit('b.db', 'm.db', "update t set c = 5 where b = 'y'")
ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset'); ok(call('invertChangeset', 'd.diff', 'i.diff'), 'invertChangeset')
ok(call('applyChangeset', 'm.db', 'i.diff'), 'applying the inverse'); check(rows('m.db', 'select * from t') == rows('b.db', 'select * from t'), 'rows')
''')

bug('c13-null-old', 'C13', 'an UPDATE of a column from NULL to a value',
    'listChanges leaves out old values that are NULL, as if the column had none',
    [(CU, '      if ( !strValueOld.empty() )\n        res += ",\\n              \\"old\\": " + strValueOld;\n      if ( !strValueNew.empty() )\n        res += ",\\n              \\"new\\": " + strValueNew;\n      res += "\\n          }";', '      if ( !strValueOld.empty() && valueOld.type() != Value::TypeNull )\n        res += ",\\n              \\"old\\": " + strValueOld;\n      if ( !strValueNew.empty() )\n        res += ",\\n              \\"new\\": " + strValueNew;\n      res += "\\n          }";')], '''
import json
T = "create table t(id integer primary key, v int); insert into t values (1, null);"
db('b.db', T); edit('b.db', 'm.db', "update t set v = 3")
ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset'); ok(call('listChanges', 'd.diff', 'l.json'), 'listChanges')
check(json.load(open('l.json'))['geodiff'][0]['changes'][1] == dict(column=1, old=None, new=3), open('l.json').read())
''')

bug('c14-notnull', 'C14', 'two databases of which one has a NOT NULL that the other lacks, in a column that is not part of the key',
    'createChangeset accepts databases whose schemas differ in NOT NULL',
    [('tableschema.h', 'isNotNull == other.isNotNull && isAutoIncrement', 'isAutoIncrement')], '''
db('b.db', 'create table t(id integer primary key, v int not null); insert into t values (1, 1);'); db('m.db', 'create table t(id integer primary key, v int); insert into t values (1, 1);')
check(call('createChangeset', 'b.db', 'm.db', 'd.diff') != 0, 'different schemas accepted'); check(call('createChangeset', 'm.db', 'b.db', 'd.diff') != 0, 'different schemas accepted')
''')

bug('c15-self', 'C15', 'a foreign key of a table to itself',
    'rebase is not refused for databases whose only foreign keys refer to their own table',
    [(SU, '          int fk_from_id = index', '          if ( fromTableName == fk_to_table )\n            continue;  // rows of one table stay together\n          int fk_from_id = index'),
     (SU, '          if ( fk_from_id < 0 )\n            continue;\n\n', '          if ( fk_from_id == -1 )\n            continue;\n')], '''
T = "create table t(id integer primary key, parent int references t(id), v); insert into t values (1, null, 1), (2, 1, 2);"
db('b.db', T); edit('b.db', 't.db', 'update t set v = 5 where id = 1'); edit('b.db', 'm.db', 'update t set v = 6 where id = 2')
ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
check(call('createRebasedChangeset', 'b.db', 'm.db', 't.diff', 'r.diff', 'c.json') != 0, 'rebase accepts a foreign key')
''')

bug('c17-unkeyed', 'C17', 'a table without a primary key whose name sorts before other tables',
    'dumpData leaves out all tables after the first one without a primary key',
    [(SD, '      continue;  // ignore tables without primary key - they can\'t be compared properly\n\n    bool first = true;\n    Sqlite3Stmt statementI;\n    statementI.prepare( mDb, "SELECT %s', '      break;  // ignore tables without primary key - they can\'t be compared properly\n\n    bool first = true;\n    Sqlite3Stmt statementI;\n    statementI.prepare( mDb, "SELECT %s')], '''
db('b.db', "create table a(id integer primary key, v); insert into a values (1, 1); create table m(x); insert into m values (1); create table t(k text primary key not null, v int); insert into t values ('x', 1), ('y', 2);")
ok(call('dumpData', 'sqlite', None, 'b.db', 'd.diff'), 'dumpData'); check(call('changesCount', 'd.diff') == 3, 'count')
''')

bug('c20-release', 'C20', 'another connection reads the database at the moment of the commit',
    'applyChangeset reports success although the commit failed because a reader holds a lock',
    [(SD, '      if ( sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 ) != SQLITE_OK )\n        throw GeoDiffException( "Failed to release savepoint" );', '      sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );')], '''
T = "create table t(id integer primary key, v); insert into t values (1,1);"
db('b.db', T); edit('b.db', 'm.db', 'insert into t values (2,2)'); ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
p = subprocess.Popen([sys.executable, '-c', "import sqlite3,sys\\nc=sqlite3.connect('b.db',isolation_level=None)\\nc.execute('begin')\\nc.execute('select * from t').fetchall()\\nprint('x',flush=True)\\nsys.stdin.read()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdout.readline()
rc = call('applyChangeset', 'b.db', 'd.diff')
p.stdin.close(); p.wait()
n = rows('b.db', 'select count(*) from t')[0][0]
check((rc == 0) == (n == 2), 'result %d with %d rows' % (rc, n))
''')

bug('c05-triggers-late', 'C05', 'the process is killed between the commit and the recreation of the user triggers',
    'user triggers are recreated after the changes are committed: a crash in between loses them',
    [(SD, '''  // recreate triggers
  for ( std::string cmd : triggerCmds )
  {
    statament.prepare( mDb, "%s", cmd.c_str() );
    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
      throw GeoDiffException( "Failed to recreate trigger: " + std::string( sqlite3_errmsg( mDb->get() ) ) );
    statament.close();
  }

  if ( !conflictCount )
  {
    savepointTransaction.commitChanges();
  }
  else
  {
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );
  }
''', '''  if ( conflictCount )
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );

  savepointTransaction.commitChanges();

  // recreate triggers
  for ( std::string cmd : triggerCmds )
  {
    statament.prepare( mDb, "%s", cmd.c_str() );
    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
      throw GeoDiffException( "Failed to recreate trigger: " + std::string( sqlite3_errmsg( mDb->get() ) ) );
    statament.close();
  }
''')], '''
T = "create table t(id integer primary key, v); create table log(x integer primary key); insert into t values (1,1);"
G = "create trigger a1 after insert on t begin insert into log values (new.id); end; create trigger a2 after delete on t begin delete from log; end;"
db('b.db', T, G); edit('b.db', 'm.db', 'drop trigger a1; insert into t values (2,2)'); ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
# the database as another process could find it: copied by the kernel at every removal of the journal
open('kill.c', 'w').write(\'\'\'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
static int n = -1;
int unlink(const char *p) { int (*f)(const char*) = dlsym(RTLD_NEXT, "unlink"); int r = f(p);
  if (strstr(p, "-journal")) { if (n < 0) { char *e = getenv("KILLAT"); n = e ? atoi(e) : 0; } if (n > 0 && --n == 0) _exit(9); } return r; }
\'\'\')
subprocess.check_call(['gcc', '-shared', '-fPIC', '-o', 'kill.so', 'kill.c', '-ldl'])
for k in range(1, 6):
    edit('b.db', 'x.db')
    r = subprocess.run([sys.executable, '-c', "import ctypes; L = ctypes.CDLL('%s/libgd.so'); L.GEODIFF_applyChangeset(b'x.db', b'd.diff')" % W], env=dict(os.environ, KILLAT=str(k), LD_PRELOAD=W + '/kill.so'))
    t = rows('x.db', "select name from sqlite_master where type = 'trigger' order by 1")
    check(t == [(b'a1',), (b'a2',)], 'killed after removing a journal for time %d: triggers %s' % (k, t))
    if r.returncode != 9: break
''')

bug('c22-stale-conflicts', 'C22', 'a call that finds conflicts and then fails, followed by another rebase in the same process',
    'conflicts found by a failed call are reported by the next rebase of the process',
    [(GD, '    std::vector<ConflictFeature> conflicts;\n', '    static std::vector<ConflictFeature> conflicts;\n'), (GD, '        flushString( conflictfile, res );\n      }\n', '        flushString( conflictfile, res );\n        conflicts.clear();\n      }\n')], '''
T = "create table t(id integer primary key, v); insert into t values (1,1),(2,2);"
db('b.db', T); edit('b.db', 't.db', 'update t set v = 5 where id = 1'); edit('b.db', 'm.db', 'update t set v = 6 where id = 1'); edit('b.db', 'm2.db', 'update t set v = 6 where id = 2')
ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
check(call('createRebasedChangeset', 'b.db', 'm.db', 't.diff', 'r.diff', 'nowhere/c.json') != 0, 'error expected')
ok(call('createRebasedChangeset', 'b.db', 'm2.db', 't.diff', 'r.diff', 'c.json'), 'createRebasedChangeset')
check(not os.path.exists('c.json'), 'a conflict of an earlier call is reported')
''')

bug('c18-tmpname', 'C18', 'two processes rebase in place at the same time with the same BASE',
    'temporary files are named after the base file: concurrent in-place rebases overwrite those of each other',
    [(GD, 'std::string root = tmpdir() + "geodiff_" + randomString( 6 );\n\n    // situation 1: base2theirs is null, so we do not need rebase. modified is already fine\n', 'std::string root = tmpdir() + "geodiff_" + std::to_string( std::hash<std::string>()( base ) );\n\n    // situation 1: base2theirs is null, so we do not need rebase\n')], '''
T = "create table t(id integer primary key, v); with recursive n(i) as (values (1) union all select i + 1 from n where i < 3000) insert into t select i, 'v' || i from n;"
db('b.db', T); edit('b.db', 't.db', "update t set v = 't' where id % 7 = 0"); ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
N = 8
exp = {}
for i in range(N): edit('b.db', 'm%d.db' % i, "update t set v = 'm%d' where id %% 11 = %d" % (i, i))
for i in range(N): edit('m%d.db' % i, 'e%d.db' % i); ok(call('rebaseEx', 'sqlite', '', 'b.db', 'e%d.db' % i, 't.diff', 'c%d.json' % i), 'rebaseEx alone'); exp[i] = rows('e%d.db' % i, 'select * from t')
for rnd in range(12):
    P = []
    for i in range(N): edit('m%d.db' % i, 'x%d.db' % i)
    for i in range(N): P.append(subprocess.Popen([sys.executable, '-c', "import ctypes,sys; L = ctypes.CDLL('%s/libgd.so'); L.GEODIFF_setMaximumLoggerLevel(0); print(flush=True); sys.stdin.readline(); sys.exit(L.GEODIFF_rebaseEx(b'sqlite', b'', b'b.db', b'x%d.db', b't.diff', b'c%d.json'))" % (W, i, i)], stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    for p in P: p.stdout.readline()
    for p in P: p.stdin.write(b'\\n'); p.stdin.flush()
    for i, p in enumerate(P): check(p.wait() == 0, 'process %d failed' % i)
    for i in range(N): check(rows('x%d.db' % i, 'select * from t') == exp[i], 'process %d of round %d: other rows than alone' % (i, rnd))
''')

bug('c12-lenient', 'C12', 'a changeset with an unknown record type after valid entries',
    'an unknown record is taken for the end of the changeset, which is then applied up to there with success',
    [(CR, '''    if ( type == 'T' )
    {
      readTableRecord();''', '''    if ( type == 0 )
      break;   // padding

    if ( type == 'T' )
    {
      readTableRecord();''' ), (CR, '      // and now continue reading, we want an entry\n', '      // and now continue reading\n')], '''
T = "create table t(id integer primary key, v); insert into t values (1,1);"
db('b.db', T); edit('b.db', 'm.db', 'insert into t values (2,2)'); ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
d = open('d.diff', 'rb').read(); open('x.diff', 'wb').write(d + bytes(20) + b'garbage')
check(call('changesCount', 'x.diff') == -1, 'changesCount accepts a malformed changeset'); check(call('applyChangeset', 'b.db', 'x.diff') != 0, 'applyChangeset accepts a malformed changeset')
check(rows('b.db', 'select * from t') == [(1, 1)], 'rows')
''')

bug('c21-level0', 'C21', 'maximum level set to 0 (from the environment or by the call)',
    'errors are logged even when logging is switched off',
    [('geodifflogger.cpp', 'if ( static_cast<int>( level ) <= static_cast<int>( maxLogLevel() ) )', 'if ( level == LevelError || level <= maxLogLevel() )')], '''
L.GEODIFF_setMaximumLoggerLevel(0); check(call('createChangeset', 'a', 'b', 'c') == 1, 'result'); check(logs == [], 'logged at level 0: %s' % logs)
L.GEODIFF_setMaximumLoggerLevel(1); check(call('createChangeset', 'a', 'b', 'c') == 1, 'result'); check([l for l, _ in logs] == [1], 'logged at level 1: %s' % logs)
''')

bug('c02-count-header', 'C02', 'databases with equal rows that differ in nothing but have tables',
    'databases with equal rows give a changeset with a table record, so that hasChanges reports changes',
    [(SD, '  Sqlite3Stmt statementI;\n  statementI.prepare( db, "%s", sqlInserted.c_str() );\n', '  Sqlite3Stmt statementI;\n  statementI.prepare( db, "%s", sqlInserted.c_str() );\n  if ( first && !reverse && tbl.columns.size() > 8 )\n  {\n    // wide tables: header first\n    writer.beginTable( schemaToChangesetTable( tableName, tbl ) );\n    first = false;\n  }\n'),
     (SD, '  std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );\n', '  const std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );\n')], '''
T = "create table t(id integer primary key, a, b, c, d, e, f, g, h, i); insert into t values (1,1,1,1,1,1,1,1,1,1);"
db('b.db', T); edit('b.db', 'm.db'); ok(call('createChangeset', 'b.db', 'm.db', 'd.diff'), 'createChangeset')
check(os.path.getsize('d.diff') == 0 and call('hasChanges', 'd.diff') == 0, 'changes reported between equal databases')
''')

bug('c09-nothing-left', 'C09', 'every edit of mine vanishes in the rebase (rows that theirs deleted), and theirs has further edits',
    'in-place rebase leaves MODIFIED as it is when the rebased changeset is empty, instead of making it THEIRS',
    [(GD, '    // 3B) concat to single changeset\n', '    // nothing of ours is left\n    if ( !GEODIFF_hasChanges( theirs2final.c_path() ) )\n      return GEODIFF_SUCCESS;\n\n    // 3B) concatenate\n')], '''
T = "create table t(id integer primary key, v); insert into t values (1,1),(2,2),(3,3);"
db('b.db', T); edit('b.db', 't.db', 'delete from t where id = 1; update t set v = 9 where id = 2'); edit('b.db', 'm.db', 'update t set v = 5 where id = 1')
ok(call('rebase', 'b.db', 't.db', 'm.db', 'c.json'), 'rebase')
check(rows('m.db', 'select * from t order by id') == [(2, 9), (3, 3)], 'rows %s' % rows('m.db', 'select * from t'))
''')

bug('c19-gap-index', 'C19', 'a client pushed rows with a gap in their keys before another client with a row under one of them syncs',
    'the first free key is computed from the number of inserted rows: with gaps in their keys it is one of them, and the push does not apply',
    [(RB, 'freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;', 'freeIndices[mapId.first] = *oldSet.begin() + static_cast<int64_t>( oldSet.size() );')], '''
T = "create table t(id integer primary key, v); insert into t values (1,'x');"
db('b.db', T)
# client A inserts three rows, removes the second again and pushes; client B has inserted one meanwhile
edit('b.db', 'a.db', "insert into t values (2,'a2'),(3,'a3'),(4,'a4'); delete from t where id = 3"); edit('b.db', 'm.db', "insert into t values (2,'b2'),(3,'b3')")
ok(call('createChangeset', 'b.db', 'a.db', 'a.diff'), 'createChangeset'); edit('b.db', 's.db'); ok(call('applyChangeset', 's.db', 'a.diff'), 'push of A')
ok(call('createRebasedChangeset', 'b.db', 'm.db', 'a.diff', 'r.diff', 'c.json'), 'createRebasedChangeset'); ok(call('applyChangeset', 's.db', 'r.diff'), 'push of B')
check(sorted(r[0] for r in rows('s.db', 'select v from t')) == [b'a2', b'a4', b'b2', b'b3', b'x'], 'rows of the server')
ok(call('rebaseEx', 'sqlite', '', 'b.db', 'm.db', 'a.diff', 'c.json'), 'sync of B'); check(rows('m.db', 'select * from t order by id') == rows('s.db', 'select * from t order by id'), 'copies differ')
''')

bug('c23-version', 'C23', 'a library whose version differs only in its last part',
    'pygeodiff accepts libraries of other patch versions',
    [('../../pygeodiff/geodifflib.py', '        if cversion != pyversion:', "        if cversion.split('.')[:2] != pyversion.split('.')[:2]:")], '''
open('v.c', 'w').write('const char *GEODIFF_version(void) { return VERSION; } void GEODIFF_init(void) {}')
sys.path.insert(0, REPO); sys.dont_write_bytecode = True
from pygeodiff.geodifflib import GeoDiffLib, GeoDiffLibVersionError
from pygeodiff.__about__ import __version__ as ours
p = ours.split('.')
for i, (v, good) in enumerate([(ours, True), ('.'.join(p[:-1] + [p[-1] + '1']), False), ('.'.join(p[:-1] + ['99']), False), ('99.' + '.'.join(p[1:]), False)]):
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-DVERSION="%s"' % v, '-o', 'v%d.so' % i, 'v.c'])
    try: GeoDiffLib(W + '/v%d.so' % i); got = True
    except GeoDiffLibVersionError: got = False
    check(got == good, 'a library of version %s %s by pygeodiff %s' % (v, 'accepted' if got else 'refused', ours))
''')

bug('c24-quote', 'C24', 'the name of the base file or of a directory above it has an apostrophe',
    'createChangeset fails when the path of BASE has an apostrophe',
    [(SD, '''"ATTACH '%q' AS aux"''', '''"ATTACH '%s' AS aux"''')], '''
T = "create table t(id integer primary key, v); insert into t values (1,1);"
os.mkdir("surveyor's maps"); B = "surveyor's maps/b.db"
db(B, T); edit(B, 'm.db', 'insert into t values (2,2)')
ok(call('createChangeset', B, 'm.db', 'd.diff'), 'createChangeset'); check(call('changesCount', 'd.diff') == 1, 'count')
''')

bug('c15-middle-name', 'C15', 'the table with the foreign key has a name with "rtree_" in the middle',
    'rebase is not refused for foreign keys of tables that have "rtree_" anywhere in their names',
    [(GU, '  if ( startsWith( tableName, "rtree_" ) )\n    return false;\n  // internal', '  if ( tableName.find( "rtree_" ) != std::string::npos )\n    return false;\n  // internal')], '''
for n, refused in [('plots', True), ('plots_rtree_zones', True), ('my_rtree_', True), ('gpkg_more', False)]:
    T = "create table par(id integer primary key, v); create table %s(id integer primary key, p integer references par(id)); insert into par values (1,1);" % n
    db('b.db', T); edit('b.db', 't.db', 'insert into par values (2,2)'); edit('b.db', 'm.db', 'insert into par values (3,3)')
    ok(call('createChangeset', 'b.db', 't.db', 't.diff'), 'createChangeset')
    check((call('createRebasedChangeset', 'b.db', 'm.db', 't.diff', 'r.diff', 'c.json') != 0) == refused, 'foreign key of table %s' % n)
''')

bug('c11-many-columns', 'C11', 'a changeset recorded by SQLite for a table of 1000 columns or more',
    'changesets of tables with 1000 to 2000 columns, which SQLite records, cannot be read',
    [(CR, 'nCol > 65536', 'nCol >= 1000')], '''
import struct
def cs(n):
    b = b'T' + (bytes([n]) if n < 128 else bytes([n >> 7 | 128, n & 127])) + b'\\1' + b'\\0' * (n - 1) + b't\\0' + b'\\x12\\0'
    for i in range(n): b += b'\\1' + struct.pack('>q', i + 1)
    return b
for n in (5, 127, 128, 999, 1000, 1500, 2000):
    open('x.diff', 'wb').write(cs(n))
    check(call('changesCount', 'x.diff') == 1, 'changes of a table with %d columns' % n); ok(call('listChanges', 'x.diff', 'l.json'), 'listChanges'); ok(call('invertChangeset', 'x.diff', 'i.diff'), 'invertChangeset')
    check(open('i.diff', 'rb').read() == cs(n).replace(b'\\x12\\0', b'\\x09\\0', 1), 'inverse of a changeset with %d columns' % n)
''')
