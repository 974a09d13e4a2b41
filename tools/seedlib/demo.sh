#!/bin/bash
# exit 0 if the library in /repo behaves as the property says, 1 otherwise
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec python3 "$D/demo.py"
