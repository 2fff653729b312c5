#!/bin/bash
# rebuilds the committed copy of the extractor (bin/extract-<sha256 prefix of extractor/extract.cpp>)
cd "$(dirname "$0")/.." && rm -f bin/extract-* && python3 - <<'P'
import sys,shutil,os; sys.path.insert(0,'sa'); import load
exe,h=load._build_extractor(); os.makedirs("bin",exist_ok=True); shutil.copy(exe,"bin/extract-"+h); os.system("strip bin/extract-"+h); print(h)
P
