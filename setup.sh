#!/bin/bash
# nothing to build: the checks are Python and import /repo's working tree directly
/opt/venv/bin/python -c 'import sympy' && mkdir -p evidence replay
