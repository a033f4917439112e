#!/bin/bash
# nothing to build: the verifier is plain Python run by the repository's own interpreter
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import z3, edulint; print('z3', z3.get_version_string())"
