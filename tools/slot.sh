#!/bin/bash
# slot.sh DIR: make DIR a copy of /repo with build products, for planting bugs
set -e
[ -d "$1/.git" ] || cp -a /repo "$1"
sed "s#/repo#$1#g" /opt/vp/env.sh > "$1.env.sh"
sed "s#/opt/vp/env.sh#$1.env.sh#" /opt/vp/test.sh > "$1.test.sh"
sed "s#/opt/vp/env.sh#$1.env.sh#" /opt/vp/build.sh > "$1.build.sh"
