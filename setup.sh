#!/bin/sh
# builds the MIR driver and the dependencies of the probe crate
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.path.insert(0, 'analysis')
import check, os
os.makedirs(check.WORK, exist_ok=True)
print(check.dump_probe(os.path.join(check.WORK, 'dump.json')) or 'ok')"
