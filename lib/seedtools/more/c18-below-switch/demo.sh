#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/runsim.py"
