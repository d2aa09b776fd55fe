#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree. Verify that what they need is there.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import numpy, pandas, scipy, yaml, matplotlib" || exit 1
echo setup ok
