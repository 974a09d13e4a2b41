"""What every check runs."""
from stories import *
from apistories import sequence, aftermath, reschema, wrong_calls, default_logger
from faultstories import *
from codecstories import *
from syncstories import *
from frontstories import *

GENERAL = ['SQLite (system library) and its file system layer behave as documented', 'the stand-in for libgpkg (ST_* functions on points) matches libgpkg where the GeoPackage triggers use it',
           'projection of files to abstract contents in lib/proj.py (independent decoder, sqlite3 of Python)']
def mk(prop, rule, **kw): return Check(prop, rule=rule, assumptions=GENERAL, **kw)

MC_TABLES = '''SPECIFICATION Spec
CONSTANTS Vals = {%s} Keys = {%s}
INVARIANTS Roundtrip Minimal Undo Twice InvIsDiff %sClosed
CHECK_DEADLOCK FALSE
'''
def mc_tables(c):
    if THOROUGH: c.model('MC_Tables', MC_TABLES % ('"a","b","c"', '"i:1","i:2"', ''), workers=4)
    c.model('MC_Tables', MC_TABLES % ('"a","b"', '"i:1","i:2"', 'AtOnce '), workers=2)
MC_MERGE = '''SPECIFICATION Spec
CONSTANTS InsKeys = {%s}
INVARIANTS Applies MergeOk PiecesOk SamePieces ConflictOk InPlaceOk EmptyOk FreshOk
CHECK_DEADLOCK FALSE
'''
def mc_merge(c):
    c.model('MC_Merge', MC_MERGE % ('2,3,4,6' if THOROUGH else '2,3'), workers=4 if THOROUGH else 2)

def mc_applytx(c):
    c.model('ApplyTx', '''SPECIFICATION Spec
CONSTANTS N = %d Triggers = {"u1","u2"} CheckTx = TRUE CheckTrg = TRUE
INVARIANTS Whole SeenWhole Monotone Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
''' % (8 if THOROUGH else 4))

def C01():
    c = mk('C01', 'pairs of databases: random tables of all key shapes with random edits, all ordered pairs of look-alike values, all changes of one row (TLC-enumerated), GeoPackages, empty and equal ones; non-trivial: distinct call outcomes')
    mc_tables(c); add_transitions(c, ('apply',)); add_systematic(c, ('apply',)); add_diff(c, 14, ('apply',))
    c.story('big', diff_story, pairs=big_pair, do=('apply',))
    for k in 'IDU': c.story('scale-' + k, diff_story, pairs=scale_pair(k, 20000), do=('apply',))
    c.story('names', diff_story, pairs=name_pair, do=('apply', 'invert')); c.story('unique-moved', unique_moved); c.story('statistics', statistics); c.story('virtual', virtual_tables); c.story('columns', columns, ns=[65, 128, 300, 500, 990], late=False)
    return c
def C02():
    c = mk('C02', 'as C01, the changesets compared entry by entry with the difference computed by the specification; has/count on every one')
    mc_tables(c); add_transitions(c, ('has',)); add_systematic(c, ('has',)); add_diff(c, 14, ('has', 'dump'))
    for k in 'IDU': c.story('scale-' + k, diff_story, pairs=scale_pair(k, 66000), do=('has',))
    c.story('big', diff_story, pairs=big_pair, do=('has',)); c.story('columns', columns, ns=[64, 129, 257]); c.story('names', diff_story, pairs=name_pair, do=('has', 'dump'))
    for i in range(3 * Q): c.story('handmade-%d' % i, json_handmade, lo=i * 10, hi=i * 10 + 10)
    return c
def C03():
    c = mk('C03', 'changesets created from random and systematic pairs, rebased changesets, dumps and hand-made ones, inverted once and twice, inverses applied')
    mc_tables(c); add_transitions(c, ('invert', 'twice')); add_systematic(c, ('invert',)); add_diff(c, 10, ('invert', 'twice', 'dump'))
    for i in range(3 * Q): c.story('sources-%d' % i, invert_sources, n=4)
    for k in 'IDU': c.story('scale-' + k, diff_story, pairs=scale_pair(k, 20000), do=('invert',))
    c.story('big', diff_story, pairs=big_pair, do=('invert',)); c.story('columns', columns, ns=[66, 127, 260])
    for i in range(2 * Q): c.story('forms-%d' % i, forms, n=12)
    return c
def C04():
    c = mk('C04', 'all row states x all entries about a row (TLC-enumerated), entry pairs on one key, one spoiled value at every position, databases drifted from the base; NOT NULL and UNIQUE')
    mc_tables(c); mc_applytx(c)
    for i in range(8): c.story('fitting-%d' % i, fit_cases, lo=i * 147, hi=(i + 1) * 147)
    pairs = 4212; step = 160
    L = range(0, pairs, step) if THOROUGH else random.Random(SEED).sample(range(0, pairs, step), 3)
    for i in L: c.story('entrypairs-%d' % i, fit_cases, lo=i, hi=i + step, what='entrypairs')
    for i in range(4 * Q): c.story('drift-%d' % i, drift, n=5)
    for i in range(3 * Q): c.story('positions-%d' % i, misfit_positions, n=4)
    c.story('headers', header_misfits); c.story('layer-replacing', layer_replacing); c.story('collations', collations)
    c.story('late', late_misfit, ns=[1500, 20000] if not THOROUGH else [1500, 20000, 140000])
    c.story('many', many_misfits, ns=[1, 127, 128, 255, 256, 257, 512] + ([65535, 65536] if THOROUGH else []))
    return c
def C05():
    c = mk('C05', 'applying and in-place rebases of plain, GeoPackage, many-page databases and ones with user triggers, killed before the n-th operation that changes a file for every n, and read by another connection before every operation; distinct: call, result and contents afterwards', level='fault_enumeration', flavours=('plain',))
    mc_applytx(c)
    for kind in ('plain', 'gpkg', 'big', 'trg', 'many', 'wal'):
        for name, fn, a in fault_calls(kind):
            if name in ('apply', 'applybad', 'rebase', 'rebasex', 'rebase0'):
                c.story('kill-%s-%s' % (kind, name), atomic_kill, kind=kind, what=name, limit=24 if not THOROUGH else 10**6)
                c.story('read-%s-%s' % (kind, name), atomic_read, kind=kind, what=name)
    for kind in ('vanish', 'same', 'both'):
        for name in ('rebase', 'rebasex')[kind == 'both':]:
            c.story('kill-%s-%s' % (kind, name), atomic_kill, kind=kind, what=name, limit=16 if not THOROUGH else 10**6)
            c.story('read-%s-%s' % (kind, name), atomic_read, kind=kind, what=name)
    c.story('kill-vast-apply', atomic_kill, kind='vast', what='apply', limit=8 if not THOROUGH else 60)
    return c
def C06():
    c = mk('C06', 'triples BASE, THEIRS, MINE: random tables and edits, GeoPackages, all combinations of edits of one row and all pairs of sets of inserted keys (TLC-enumerated)')
    mc_merge(c); add_rebase(c, 12, ('cs', 'csx')); c.story('many', rebase_story, triples=big_triple, do=('cs', 'csx'))
    c.story('empty', inplace_specials, n=2); c.story('meta', rebase_story, triples=meta_triple, do=('cs', 'csx'))
    c.story('scale', rebase_story, triples=scale_triple(3000), do=('cs', 'csx'))
    return c
def C07():
    c = mk('C07', 'as C06 with more rows inserted by both sides')
    mc_merge(c); add_rebase(c, 10, ('cs', 'csx')); c.story('many', rebase_story, triples=big_triple, do=('cs', 'csx'))
    c.story('gap', rebase_story, triples=gap, do=('cs',))
    for pk in ('TEXT', 'INTEGER'): c.story('successive-' + pk, successive, pk=pk)
    c.story('scale', rebase_story, triples=scale_triple(3000 if not THOROUGH else 10000), do=('cs',))
    return c
def C08():
    c = mk('C08', 'as C06; the conflict file compared with the conflicts computed by the specification; stale conflict files lie in the way of some calls')
    mc_merge(c); add_rebase(c, 12, ('cs', 'csx', 'rebase', 'rebasex'))
    c.story('meta', rebase_story, triples=meta_triple); c.story('scale', rebase_story, triples=scale_triple(3000), do=('cs',))
    return c
def C09():
    c = mk('C09', 'as C06, both in-place calls compared with createRebasedChangeset + applyChangeset; one side or both unedited; calls that fail')
    mc_merge(c); add_rebase(c, 10, ('cs', 'rebase', 'rebasex')); c.story('many', rebase_story, triples=big_triple, do=('cs', 'rebase', 'rebasex')); c.story('meta', rebase_story, triples=meta_triple, do=('cs', 'rebase', 'rebasex'))
    c.story('scale', rebase_story, triples=scale_triple(2000), do=('rebase', 'rebasex'))
    for i in range(3 * Q): c.story('special-%d' % i, inplace_specials, n=2)
    return c
def add_damaged(c):
    for i in range(2 * Q): c.story('badmeta-%d' % i, damaged, n=4 if not THOROUGH else 20, kind='meta')
    for i in range(3 * Q): c.story('damaged-%d' % i, damaged, n=3, kind='bytes')
def C10():
    c = mk('C10', 'call sequences and all kinds of wrong calls generated by TLC from Api.tla; random rebases and diffs; the scratch and temporary directory compared before and after every call')
    for i in range(5 * Q): c.story('sequence-%d' % i, sequence, num=2, length=25, start=i, gpkg=i % 2 == 1, fresh=False)
    for i in range(4): c.story('wrong-%d' % i, wrong_calls, part=i, parts=4, per=2 * Q)
    add_rebase(c, 3, ('cs', 'csx', 'rebase', 'rebasex'), systematic=False); add_diff(c, 3, ('apply', 'invert', 'json', 'dump'))
    for i in range(2 * Q): c.story('special-%d' % i, inplace_specials, n=2)
    for i in range(2 * Q): c.story('drift-%d' % i, drift, n=2)
    add_names(c)
    add_damaged(c)
    for i in range(4): c.story('neighbours-%d' % i, neighbours, part=i, parts=4, gpkg=i % 2 == 1)
    return c
MC_SYNC = '''SPECIFICATION Spec
CONSTANTS Clients = {%s} Tabs = {1} MaxEdits = %d LowKeys = FALSE Emit = FALSE Len_ = 0
VIEW View
INVARIANTS NoFail NoLoss Converged
CHECK_DEADLOCK FALSE
'''
def C19():
    c = mk('C19', 'behaviours of Sync.tla (two to four clients, inserts, updates, deletes, syncs in any order) simulated by TLC and replayed with the library in five ways of syncing, then two rounds of syncs; distinct: call and contents afterwards')
    c.model('Sync', MC_SYNC % ('1,2', 3), workers=4)
    if THOROUGH: c.model('Sync', MC_SYNC % ('1,2,3', 3), workers=4, timeout=7200, heap='6g')
    for i in range(10 * Q): c.story('sync-%d' % i, sync_story, clients=2 + i % 3, tabs=1 + i % 2, length=(12, 24, 18)[i % 3], num=3, start=i * 10, spec=('Spec', 'DrawSpec')[i % 2])
    for i, how in enumerate(('cs', 'csx', 'rebase', 'rebasex', 'chain')):
        for j in range(Q): c.story('sync-%s-%d' % (how, j), sync_story, clients=2, tabs=2, length=24, num=2, start=500 + i * 100 + j, how=how, spec='DrawSpec')
    return c
def C20():
    c = mk('C20', 'a failure of the n-th read, write, lock, sync, open, delete or truncate operation of SQLite, once or lasting, for every n, in every call; size limits, full devices, directories in the way of outputs; databases locked by others; distinct: call, result and contents afterwards', level='fault_enumeration', flavours=('asan', 'plain'))
    mc_applytx(c)
    for kind in ('plain', 'gpkg', 'big', 'trg', 'wal'):
        for name, fn, a in fault_calls(kind):
            if name not in ('invert', 'list', 'summary', 'csx', 'csxe', 'cse'):
                c.story('vfs-%s-%s' % (kind, name), vfs_faults, kind=kind, what=name, limit=12 if not THOROUGH else 400)
            if kind != 'trg': c.story('out-%s-%s' % (kind, name), out_faults, kind=kind, what=name)
    for kind in ('vanish', 'same', 'both'): c.story('vfs-%s-rebasex' % kind, vfs_faults, kind=kind, what='rebasex', limit=12 if not THOROUGH else 400)
    for kind in ('plain', 'gpkg'):
        for name in [x[0] for x in fault_calls(kind) + READS]: c.story('files-%s-%s' % (kind, name), vfs_faults, kind=kind, what=name, limit=12, kinds=FILE_KINDS, flavour='plain')
    return c
def C21():
    c = mk('C21', 'every function with every kind of error at every place (enumerated by TLC from Api.tla), at all logger levels; default logger with the environment variable; call sequences')
    for i in range(8): c.story('levels-%d' % i, wrong_calls, part=i, parts=8, per=Q, levels=True, gpkg=i % 4 == 3)
    for i in range(3): c.story('default-%d' % i, default_logger, part=i, parts=3)
    for i in range(2 * Q): c.story('sequence-%d' % i, sequence, num=2, length=25, start=i + 500, fresh=False)
    for i in range(2 * Q): c.story('late-%d' % i, aftermath, n=1, start=i)
    c.story('headers', header_misfits); c.story('refused', refuse, kind='fk', hi=12); c.story('refused-trg', refuse, kind='trg', hi=6); c.story('drift', drift, n=4); c.story('tails', tail_story)
    for name in ('apply', 'create', 'csx', 'list', 'invert', 'dump', 'rebasex', 'cs'): c.story('faults-' + name, vfs_faults, kind='plain', what=name, limit=4, flavour='asan')
    c.story('outfaults', out_faults, kind='plain', what='csx')
    add_damaged(c)
    return c
def C22():
    c = mk('C22', 'call sequences generated by TLC from Api.tla, right and wrong calls mixed, in one process; every call first in a fresh process on a copy of the same files; open files and locks after every call')
    for i in range(8 * Q): c.story('sequence-%d' % i, sequence, num=2, length=20 if not THOROUGH else 40, start=i, gpkg=i % 3 == 2)
    for i in range(2): c.story('wrong-%d' % i, wrong_calls, part=i, parts=2, per=Q)
    for i in range(4 * Q): c.story('aftermath-%d' % i, aftermath, n=1, start=i)
    for i in range(2 * Q): c.story('reschema-%d' % i, reschema, n=9)
    add_damaged(c)
    return c
def add_names(c, per=1):
    for i in range(3): c.story('names-%d' % i, names, kind='names', part=i, parts=3)
    c.story('formats', names, kind='formats'); c.story('formats-gpkg', names, kind='formats', data='gpkg')
    c.story('relnames', names, kind='relnames', data='gpkg'); c.story('places', names, kind='places'); c.story('env', names, kind='env')
def C24():
    c = mk('C24', 'every call with plain names and then, on files of the same contents, with odd names of files and directories, absolute, relative and indirect paths, links, other temporary directories, environment variables and locales; files in scratch and temporary directory compared before and after')
    add_names(c); c.story('locale', names, kind='locale'); c.story('locale-gpkg', names, kind='locale', data='gpkg')
    c.story('places-gpkg', names, kind='places', data='gpkg'); c.story('env-gpkg', names, kind='env', data='gpkg')
    if THOROUGH: 
        for i in range(3): c.story('names-gpkg-%d' % i, names, kind='names', data='gpkg', part=i, parts=3)
        c.story('relnames-plain', names, kind='relnames')
    return c
def C23():
    c = mk('C23', 'calls enumerated from Api.tla (right ones, and each function with each error at each place) made through the C API, and through geodiffinfo or pygeodiff on the same files; all numbers of arguments for all modes; return codes of a stand-in library; odd names')
    for v in ('cli', 'py'):
        for i in range(4): c.story('%s-%d' % (v, i), front_calls, via=v, part=i, parts=4, gpkg=i == 3, per=Q)
        c.story(v + '-names', front_names, via=v); c.story(v + '-levels', front_levels, via=v)
    c.story('argv', argv_story); c.story('stub', stub_story)
    return c
def C13():
    c = mk('C13', 'listChanges and listChangesSummary of created, inverted, dumped, rebased and hand-made changesets, all kinds of values and names; in other locales')
    c.story('locale', names, kind='locale', calls=('listChanges', 'listChangesSummary', 'createRebasedChangeset'))
    add_transitions(c, ('json',)); add_systematic(c, ('json',)); add_diff(c, 8, ('json', 'invert', 'dump'))
    c.story('long', json_long)
    for k in 'IDU': c.story('scale-' + k, diff_story, pairs=scale_pair(k, 33000), do=('json',))
    for i in range(6 * Q): c.story('handmade-%d' % i, json_handmade, lo=i * 12, hi=i * 12 + 12)
    return c
def C14():
    c = mk('C14', 'pairs of schemas with one difference (and differences that are none), both ways, with and without rows; changesets with headers that do not fit, alone and after or before fitting entries')
    for i in range(0, len(SCHEMAS), 5): c.story('schemas-%d' % i, schema_pairs, lo=i, hi=i + 5)
    c.story('headers', header_misfits); add_diff(c, 3, ('apply',))
    for i in range(2): c.story('layers-%d' % i, layer_pairs, part=i, parts=2)
    return c
def C15():
    c = mk('C15', 'foreign keys of all forms, triggers of all kinds and names, GeoPackages; with edits on both, one or no side')
    c.story('fk', refuse, kind='fk')
    for i in range(0, 36, 12): c.story('trg-%d' % i, refuse, kind='trg', lo=i, hi=i + 12)
    c.story('trg-rest', refuse, kind='trg', lo=36)
    for i in range(2 * Q): c.story('gpkg-%d' % i, refuse_gpkg, n=8)
    add_rebase(c, 3, ('cs',), systematic=False)
    return c
def C16():
    c = mk('C16', 'databases with user triggers of all kinds and odd names, GeoPackages with feature-count and spatial-index triggers; fitting and misfitting changesets, inverses, in-place rebase')
    mc_applytx(c)
    for i in range(8 * Q): c.story('user-%d' % i, user_triggers, n=4, start=i * 4)
    for i in range(4 * Q): c.story('gpkg-%d' % i, user_triggers, n=4, start=i * 4, gpkg=True)
    return c
def C17():
    c = mk('C17', 'random databases of all key shapes, GeoPackages, long values, empty databases; dump compared with the changeset from an emptied copy and applied to it')
    for i in range(10 * Q): c.story('dump-%d' % i, dump_story, n=4, start=i * 4)
    c.story('scale', diff_story, pairs=scale_pair('I', 20000), do=('dump',)); c.story('names', diff_story, pairs=name_pair, do=('dump',))
    add_systematic(c, ('dump',))
    return c

def mc_codec(c):
    c.model('MC_Codec', 'SPECIFICATION Spec\nCONSTANTS Mode = "values" Alphabet = {} MaxLen = 0 MaxEnt = %d MaxTab = %d Emit = FALSE\nINVARIANTS Roundtrip PrefixOk\nCHECK_DEADLOCK FALSE\n' % ((2, 3) if THOROUGH else (1, 2)), workers=2)
def C11():
    c = mk('C11', 'changesets of geodiff (differences, inverses, dumps, rebased) read and applied by SQLite and decoded byte by byte by Codec.tla; changesets recorded, inverted and concatenated by SQLite, with detours, given to every call of geodiff; values and tables around every size of the length fields; changesets of all forms')
    mc_codec(c)
    for i in range(5 * Q): c.story('write-%d' % i, interop_write, n=3, start=i * 3)
    for i in range(5 * Q): c.story('read-%d' % i, interop_read, n=2, start=i * 2)
    for i in range(3 * Q): c.story('forms-%d' % i, forms, n=12)
    c.story('lengths-0', lengths, ls=[LENGTHS[:8]]); c.story('lengths-1', lengths, ls=LENGTHS[8:12]); c.story('lengths-2', lengths, ls=LENGTHS[12:])
    for i, n in enumerate([2**21 - 1, 2**21, 2**21 + 1] + ([2**24, 2**24 + 5] if THOROUGH else [])): c.story('long-%d' % i, lengths, ls=[n])
    c.story('columns', columns, ns=[1, 2, 126, 127, 128, 129, 130, 260, 500, 900, 990])
    c.story('recorded-columns', recorded_columns, ns=[1000, 1500, 2000])
    c.story('names', interop_write, pairs=name_pair, triples=name_triple)
    return c
def C12():
    c = mk('C12', 'one input per transition of the decoder of Codec.tla (enumerated by TLC), valid changesets cut off after every byte, random changes of bytes, each given to all calls that read a changeset (AddressSanitizer); misfits of header and table')
    mc_codec(c)
    for i in range(8): c.story('decoder-%d' % i, decoder_story, part=i, parts=8, limit=None if THOROUGH else 160)
    for i in range(5): c.story('truncated-%d' % i, truncation_story, which=i)
    c.story('tails', tail_story)
    for i in range(4 * Q): c.story('mutated-%d' % i, mutation_story, n=120 if not THOROUGH else 500)
    c.story('headers', header_misfits)
    return c

def mc_temp(c):
    c.model('Temp', 'SPECIFICATION Spec\nCONSTANTS Procs = {%s} Distinct = TRUE Exclusive = FALSE Steps = 2 Emit = FALSE\nINVARIANTS Alone Clean\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % ('1,2,3,4' if THOROUGH else '1,2,3'), workers=2)
def C18():
    c = mk('C18', 'two processes, one stopped before any of its operations on files while the other runs a whole call; orders of chunks of three processes enumerated by TLC; processes started together; each call compared with its outcome alone; nothing left in the shared temporary directory; distinct: calls, results and contents', level='exploration', flavours=('plain',))
    mc_temp(c)
    for kind in ('plain', 'gpkg', 'big'):
        for a, b in (('rebasex', 'rebasex'), ('cs', 'cs'), ('rebase', 'rebasex'), ('create', 'create'), ('apply', 'apply'), ('dump', 'csx'), ('csx', 'rebase'), ('invert', 'list'), ('summary', 'invert')):
            if kind == 'plain' or a in ('rebasex', 'cs', 'rebase', 'csx') or THOROUGH: c.story('two-%s-%s-%s' % (kind, a, b), two_processes, kind=kind, first=a, second=b, limit=30 if not THOROUGH else 10**6)
    for i, w in enumerate([('rebasex', 'rebasex', 'rebasex'), ('cs', 'csx', 'rebase'), ('rebase', 'apply', 'create'), ('dump', 'rebasex', 'cs')]): c.story('three-%d' % i, interleaved, kind=('plain', 'gpkg', 'big')[i % 3], whats=w, steps=2, pick=20 if not THOROUGH else None)
    if THOROUGH:
        for i, w in enumerate([('rebasex', 'rebasex'), ('cs', 'cs'), ('rebase', 'rebase'), ('rebasex', 'cs')]): c.story('fine-%d' % i, interleaved, kind=('plain', 'gpkg', 'big')[i % 3], whats=w, steps=5, pick=None)
    for i, w in enumerate([('rebasex',), ('rebasex', 'rebase', 'cs', 'csx'), ('create', 'apply', 'dump', 'invert', 'list', 'rebasex')]): c.story('together-%d' % i, together, kind=('plain', 'gpkg', 'big')[i % 3], n=6, rounds=10 * Q, whats=w)
    return c

def make(p): return globals()[p]()
