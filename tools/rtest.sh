#!/bin/bash
# rtest.sh REPO OUT.json: /opt/vp/test.sh for a copy of the repository
sed "s#cd /repo#cd $1#" /opt/vp/test.sh > /tmp/rtest.$$.sh; bash /tmp/rtest.$$.sh "$2"; rm -f /tmp/rtest.$$.sh
