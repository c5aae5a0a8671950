#!/bin/bash
# fresh scratch copy /tmp/w of /repo's HEAD
mkdir -p /tmp/w; cd /tmp/w && { [ -d .git ] || git clone -q /repo .; } && git fetch -q origin && git reset -q --hard $(git -C /repo rev-parse HEAD) && git status --short | head -3
