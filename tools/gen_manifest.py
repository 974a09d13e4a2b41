#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import registry
MBT = 'TLA+ specification (Geodiff/Tables/Rebase) model-checked with TLC; recorded executions of the real library, driven by TLC-enumerated and random cases, validated against it by TLC (trace validation)'
NOTE = {}
def n(p, technique, note): NOTE[p] = (technique, note)
B = 'Decides every recorded call of the executions explored (not all inputs). '
n('C01', MBT, B + 'Bounded model checking of diff/apply over all small tables; trusts the projection of files (independent decoder, Python sqlite3) and SQLite.')
n('C02', MBT, B + 'The changeset is compared entry by entry with the difference computed by the specification.')
n('C03', MBT, B + 'Inverse computed by the specification; hand-made changesets cover forms that diff does not write.')
n('C04', MBT, B + 'All row states times all entries about a row, and entry pairs on one key, are enumerated by TLC and executed.')
n('C05', 'TLA+ model of the apply transaction with crash and reader (ApplyTx) checked with TLC; kill and pause at every file-system operation of the real library, observations validated by TLC', 'Process kill (not power loss) at every mutating VFS operation of the calls explored; a reader at every operation. Trusts the SQLite VFS shim of the runner.')
n('C06', MBT, B + 'All combinations of edits of one row by both sides and all pairs of small sets of inserted keys are enumerated by TLC; MC_Merge checks the merge design itself.')
n('C07', MBT, B + 'As C06; more and larger insert sets. Excludes the documented case of a renumbered key meeting an old row (see DESIGN.md).')
n('C08', MBT, B + 'Expected conflicts computed by the specification from the three databases.')
n('C09', MBT, B + 'In-place result compared with the result of createRebasedChangeset + applyChangeset in the same trace.')
n('C10', 'TLA+ model of call sequences (Api) simulated by TLC and replayed in the library; file-system snapshots around every call validated by TLC', B + 'Snapshots of scratch and temporary directory around every call.')
n('C11', 'TLA+ codec of the changeset format (Codec) model-checked with TLC; files of the library decoded by it and by SQLite, traces validated by TLC', B + 'Byte-level decoding in TLA+ for small files, by an independent Python decoder for large ones.')
n('C12', 'TLA+ codec of the changeset format classifies generated byte strings; calls under AddressSanitizer validated by TLC', B + 'Truncation at every byte, single-byte mutations, hand-made headers, random bytes; address sanitizer and glibc++ assertions.')
n('C13', MBT, B + 'JSON parsed by Python and compared with the entries by the specification.')
n('C14', MBT, B + 'Pairs of schemas with every single difference the generator knows.')
n('C15', MBT, B + 'Foreign keys and triggers in all generated forms.')
n('C16', MBT, B + 'User triggers of all kinds; feature counts and spatial index compared with the rows.')
n('C17', MBT, B + 'The dump is compared with the difference from an emptied database computed by the specification.')
n('C18', 'TLA+ model of temporary files of concurrent calls (Temp) checked with TLC; two real processes interleaved at every file-system operation, traces validated by TLC', 'One process paused at every VFS operation while others run complete calls; plus free-running processes.')
n('C19', 'TLA+ model of server and clients (Sync) checked and simulated with TLC; behaviours replayed in the library and validated by TLC', B + 'Bounded model checking of convergence on the abstract rebase; simulated behaviours replayed with the real library.')
n('C20', 'fault injection at every file-system operation of calls, recorded traces validated by TLC against the TLA+ specification', 'Single and sticky faults at every read, write, lock, sync, open of the calls explored, file size limits, full device.')
n('C21', 'TLA+ model of call sequences with wrong arguments (Api) simulated by TLC and replayed in the library, traces validated by TLC', B + 'Every kind of wrong argument in every function, every logger level.')
n('C22', 'TLA+ model of call sequences (Api) simulated by TLC and replayed in one process and in fresh ones, traces validated by TLC', B + 'Every call of the sequences is also run first in a fresh process on a restored copy.')
n('C23', 'TLA+ model of the front ends (FrontEnd, Api) enumerated by TLC and run through geodiffinfo and pygeodiff; traces of the calls validated by TLC against the outcome of the C API', B + 'All modes times all numbers of arguments, all return codes by a stand-in library, all right and wrong calls of Api.')
n('C24', 'recorded executions of the same calls under other names, places, environments and locales, validated by TLC: outcomes must be a function of the contents (memo of the TLA+ trace specification)', B + 'A fixed list of odd names, places, environments and locales, on plain and GeoPackage-like data.')
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = getattr(registry, p, None)
    if f is None: na.append(dict(property=p, reason='check under construction')); continue
    c = f()
    checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 checks/run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 checks/run.py ' + p,
                       evidence_file='evidence/%s.json' % p, technique=NOTE[p][0], level=c.level, level_note=NOTE[p][1]))
m = dict(version=1, setup_cmd='python3 harness/build.py asan && python3 harness/build.py plain',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the runner links the library with a file-system shim of its own (harness/gdx.cpp). "Not a hook" commits in /repo are fixes only.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
