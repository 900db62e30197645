#!/bin/bash
# Nothing to build: the checks import the code of /repo directly.
cd "$(dirname "$0")" && chmod +x run.sh && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "import numpy, xarray, apache_beam; print('ok')"
