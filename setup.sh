#!/bin/sh
# Nothing to prepare: every check builds what it needs from /repo. This only verifies the tools.
set -e
cd "$(dirname "$0")"
chmod +x check fakebin/* 2>/dev/null || true
g++ --version | head -1
python3 --version
