#!/usr/bin/env python3
"""Freezes the reviewed tree as the reference of the relational checks (run after a fix: commit has been reviewed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import load
load.save_ref()
print(os.path.getsize(load.REF))
