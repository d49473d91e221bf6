#!/bin/bash
# replays the search for a failing input of a property on the real code of /repo
cd "$(dirname "$0")" && exec python3 check.py "$1" --tier thorough
