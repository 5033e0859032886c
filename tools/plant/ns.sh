#!/bin/bash
# run a command with a private copy of /repo mounted over it
d=$(mktemp -d /tmp/nsr-XXXXXX); cp -a /repo $d/repo
unshare -m bash -c "mount --bind $d/repo /repo && $*"
find $d -delete
