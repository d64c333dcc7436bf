#!/bin/bash
# rebuilds the simulator from /repo's current tree and replays a recorded violation
exec python3 "$(dirname "$0")/check.py" --replay "$1"
