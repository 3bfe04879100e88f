#!/bin/bash
# builds the engine, the IR of std and all dependencies, and the native replay binaries (every check rebuilds what changed)
cd "$(dirname "$0")" || exit 1
python3 check.py --setup
