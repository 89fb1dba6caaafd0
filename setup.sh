#!/bin/sh
# Nothing to build: verify that the tools the checks need are present.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())'
/opt/venv/bin/python -c 'import starlette, anyio; print("starlette", starlette.__version__)'
