import importlib
import json
import os

TECHNIQUE = {}
_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'technique.json')
if os.path.exists(_p):
    TECHNIQUE = json.load(open(_p))

for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.startswith('rules_') and _f.endswith('.py'):
        importlib.import_module(_f[:-3])
