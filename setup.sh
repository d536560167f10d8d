#!/bin/bash
# Sanity check of the tool chain; nothing to build ahead of time (checks copy and build from /repo).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c 'import trio, apsw, pyfuse3, h11, cryptography, Cython'
