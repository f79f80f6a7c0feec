#!/usr/bin/env python3
"""Nothing to install: check that the tools are there. Every check builds its own harness from /repo as it is."""
import shutil, sys
missing = [t for t in ('g++', 'make', 'ar') if not shutil.which(t)]
sys.exit('missing: ' + ' '.join(missing) if missing else 0)
