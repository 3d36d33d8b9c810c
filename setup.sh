#!/bin/sh
# compiles the TLC override of the real-number operators (checks also do this on demand)
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '$here/harness'); import common; common.build_java()"
