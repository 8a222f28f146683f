#!/bin/bash
# replays a reported counterexample against the real code: bin/replay.sh .build/replay/<PID>/<n>.json
exec python3 /verif/bin/check.py --replay "$1"
