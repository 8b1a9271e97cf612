#!/bin/bash
# Offline sanity of the framework: the override compiles and its number tower is right.
set -e
cd "$(dirname "$0")/.."
exec /opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'harness')
import driver
m = driver.run_model('BigRatLaws', 'BigRatLaws.cfg')
print('BigRatLaws', m['ok'], m['distinct'], 'states')
sys.exit(0 if m['ok'] else 1)
P
