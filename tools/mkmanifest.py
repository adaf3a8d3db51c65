""" Writes MANIFEST.json from the check modules that exist. """
import os, sys, json, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = 'runtime monitoring: '
checks = []; missing = []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(here, 'checks', pid.lower() + '.py')):
        missing.append({'property' : pid, 'reason' : 'its check is not written yet'}); continue
    m = importlib.import_module('checks.' + pid.lower())
    checks.append({'property' : pid, 'quick_cmd' : './run.sh ' + pid, 'thorough_cmd' : 'VERIF_TIER=thorough ./run.sh ' + pid,
                   'technique' : TECH + getattr(m, 'TECHNIQUE', (m.__doc__ or '').strip()), 'level' : m.LEVEL,
                   'level_note' : 'Held on the executions produced, nothing beyond. ' + m.RULE + '. Assumes: ' + '; '.join(m.ASSUMPTIONS or ['nothing further'])})
out = {'version' : 1, 'setup_cmd' : './run.sh --build-only', 'checks' : checks, 'not_applicable' : missing,
       'notes' : 'No hooks in /repo: observation and fault injection are done by an LD_PRELOAD library, the handler passed to HTTPServer and raw sockets.'}
json.dump(out, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent = 1, ensure_ascii = False)
print(len(checks), 'checks,', len(missing), 'missing')
