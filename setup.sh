#!/bin/bash
# regenerates the harness from the committed tables and builds /repo in every configuration once
set -e
cd "$(dirname "$0")"
python3-vt -c "
import sys; sys.path.insert(0,'.')
from xmv import build
ok, bad = build.build_all(build.DEFAULT)
print('built', sorted(ok)); print('not built', bad)
"
