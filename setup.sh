#!/bin/bash
# Unpacks the property-testing library from the offline wheelhouse; every
# check does the same by itself when .deps is missing.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" /opt/venv/bin/python -c "from mudcheck import bootstrap; print(bootstrap.ensure())"
