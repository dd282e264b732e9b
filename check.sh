#!/bin/bash
# bash check.sh ID [job prefix ...]   decide one property on /repo's current tree
cd "$(dirname "$0")" && exec /usr/bin/python3 engine/run_check.py "$@"
