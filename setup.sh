#!/bin/bash
# Nothing is kept between checks: each one builds the seam library and
# compiles the byte-code it needs into a scratch directory.  This only makes
# sure the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
command -v gcc >/dev/null
/opt/venv/bin/python -c 'import sys, yaml, numpy, rundec, pylha, ckmutil; assert sys.version_info[:2] >= (3, 12)'
echo ready
