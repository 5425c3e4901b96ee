import json, os
_d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.json')))
WORDS = _d['words']
API = _d['api']
