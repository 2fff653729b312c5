cd /verif; for p in $(python3 -c "
import json;print(' '.join(c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do (timeout 600 python3 sa/check.py $p > /tmp/ac.$p 2>&1; r=$?; [ $r = 0 ] && ! grep -q VIOLATION /tmp/ac.$p || { echo "$p rc=$r"; grep -h "VIOLATION\|rror" /tmp/ac.$p | cut -c1-300 | head -5; }) & while [ $(jobs -r | wc -l) -ge 6 ]; do sleep 0.1; done; done; wait; echo done
