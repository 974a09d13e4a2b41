#!/usr/bin/env python3
"""Runs calls of the Python module pygeodiff (of /repo) with the protocol of gdx.cpp. Arguments: library, [level]"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
out = os.fdopen(os.dup(1), 'w')
n = os.open('/dev/null', os.O_WRONLY); os.dup2(n, 1)
from urllib.parse import unquote_to_bytes
METHODS = dict(l.split('=') for l in os.environ['PYRUN_METHODS'].split(','))
def enc(b): return ''.join(chr(c) if 33 <= c <= 126 and c != 37 else '%%%02X' % c for c in b)
def reply(*f): out.write('\t'.join(str(x) for x in f) + '\n')
logs = []
import pygeodiff
try:
    gd = pygeodiff.GeoDiff(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != '-' else None)
    first = ('returned', 0)
    if not os.environ.get('PYRUN_STUB'): gd.set_logger_callback(lambda level, msg: logs.append((level, msg)))
except Exception as e: first = (type(e).__name__, 0)
for l in sys.stdin:
    f = l.rstrip('\n').split('\t'); logs.clear()
    if f[0] == 'call':
        if f[1] == 'load': reply('kind', *first)
        elif f[1] == 'version': reply('kind', gd.version(), 0)
        else:
            a = [unquote_to_bytes(x).decode('utf8') for x in f[2:]]
            try:
                r = getattr(gd, METHODS[f[1]])(*a); reply('kind', 'returned', int(r) if r is not None else 0)
            except Exception as e: reply('kind', type(e).__name__, 0)
        reply('ret', 0)
        for lv, m in logs: reply('log', lv, enc(m))
    elif f[0] == 'level': gd.set_maximum_logger_level(int(f[1]))
    reply('.'); out.flush()
