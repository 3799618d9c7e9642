#!/bin/bash
# Builds the analyser and the IR once; every check rebuilds what is missing or stale by itself.
cd "$(dirname "$0")" && python3 -c "from lib import tool; print(tool.prepared()['prep'])"
