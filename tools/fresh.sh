#!/bin/bash
# fresh.sh: make /tmp/w a copy of /repo at HEAD, with its build products
if [ -d /tmp/w/.git ]; then git -C /tmp/w checkout -q -- . ; git -C /tmp/w clean -fdq src include; git -C /tmp/w fetch -q /repo HEAD && git -C /tmp/w reset -q --hard FETCH_HEAD
else cp -a /repo /tmp/w; fi
