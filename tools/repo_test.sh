#!/bin/bash
# Builds and runs the unedited CETL test suite.
bash /opt/vp/build.sh > /tmp/vla_build.log 2>&1 || { tail -30 /tmp/vla_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vla_out.json | tail -1
python3 -c "
import json; a=json.load(open('/tmp/vla_out.json')); print('FAILED:', a['failed'][:10])"
rm -f /tmp/vla_out.json /tmp/vla_build.log
