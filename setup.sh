#!/bin/bash
# Nothing has to be installed; this only fills the compiler cache so that the checks build faster (they build either way).
cd "$(dirname "$0")" && python3 lib/warm.py; exit 0
