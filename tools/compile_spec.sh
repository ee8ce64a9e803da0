#!/bin/bash
# debugging aid: compile_spec.sh SPEC OUTDIR  -> OUTDIR/SPEC.bc
cd "$(dirname "$0")/.."
/usr/bin/env python3 - "$1" "$2" <<'P'
import sys, importlib.machinery, importlib.util
l = importlib.machinery.SourceFileLoader('check', './check')
m = importlib.util.module_from_spec(importlib.util.spec_from_loader('check', l)); l.exec_module(m)
import os; os.makedirs(sys.argv[2], exist_ok=True)
sp = m.Spec('specs/%s.cpp' % sys.argv[1])
print(m.compile_spec(sp, sys.argv[2]))
P
