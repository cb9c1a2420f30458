#!/bin/bash
# Nothing to build: the checks are Python and import /repo's sources. Verify the tools.
cd "$(dirname "$0")" && mkdir -p evidence runs && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import numpy, pandas, netCDF4, requests, urllib3, bs4, sklearn, matplotlib
import ast; ast.parse(open('check.py').read()); print('setup ok')"
