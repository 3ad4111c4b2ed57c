#!/bin/bash
# Builds the instrumentation plugin and, to warm the cache, one harness.  Checks rebuild whatever is missing.
cd "$(dirname "$0")" && /opt/veriftools/pyvenv/bin/python3 -B engine/sxbuild.py plugin
