#!/bin/bash
# Build the MIR driver and dump the current tree once.
cd "$(dirname "$0")/.."
exec python3 -c "
import sys; sys.path.insert(0, 'engine'); sys.argv = ['check']
import check; print(check.dump())"
