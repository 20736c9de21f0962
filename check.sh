#!/bin/bash
cd "$(dirname "$0")" && PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m vf.main "$@"
