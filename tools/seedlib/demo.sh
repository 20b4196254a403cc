#!/bin/bash
# run in the root of convst: exit 0 if the property holds, 1 otherwise
here="$(cd "$(dirname "$0")" && pwd)"
py=python3
for p in /opt/venv/bin/python /opt/venv/bin/python3; do [ -x "$p" ] && py="$p" && break; done
exec "$py" -B "$here/demo.py"
