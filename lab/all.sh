#!/bin/bash
# all lab sets: refactorings must give no "diff", bugs must be found
cd "$(dirname "$0")"
for r in refactor*.py; do echo "== $r"; python3 lab.py $r 2>&1 | grep -v '^und' | cut -c1-250; done
for b in bugs*.py; do python3 lab.py $b 2>&1 | cut -c1-60 > /tmp/${b%.py}.now; echo "== $b $(grep -c ^diff /tmp/${b%.py}.now) diff of $(grep -c "^('" $b)"; diff /tmp/${b%.py}.base /tmp/${b%.py}.now | grep '^[<>]' | cut -c1-70; done
