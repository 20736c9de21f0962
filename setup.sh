#!/bin/bash
# Nothing has to be installed: build the plain variant once so that the first check does not have to.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 python3 -c 'from vf import common; print(common.build("plain"))'
