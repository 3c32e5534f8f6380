#!/usr/bin/env python3
"""Nothing is built ahead: every check cuts and verifies the current sources itself. This only confirms the tools are there."""
import shutil, sys, os
missing = [t for t in ('verus', 'cargo', 'python3') if not (shutil.which(t) or os.path.exists(f'/root/.cargo/bin/{t}'))]
print('setup: tools present' if not missing else f'setup: missing {missing}')
sys.exit(1 if missing else 0)
