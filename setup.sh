#!/bin/bash
# Nothing to build: Hypothesis is vendored and the code under test is imported from /repo.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD:$PWD/vendor /opt/venv/bin/python -c "import hypothesis, pocomc, vf.core; vf.core.check_repo(); print('ok', hypothesis.__version__)"
