#!/bin/bash
# Nothing to build: check the tools the framework needs and the term/solver self tests.
set -e
cd "$(dirname "$0")"
/usr/bin/clang++-18 --version >/dev/null
/usr/bin/opt-18 --version >/dev/null
python3-vt vcg/selftest_terms.py >/dev/null
python3-vt vcg/selftest_lia.py >/dev/null
mkdir -p evidence replays
