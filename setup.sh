#!/bin/bash
# Nothing to compile: checks import the package from /repo at run time.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
/opt/venv/bin/python -c 'import torch, numpy, scipy, yaml, natsort' || exit 1
