#!/bin/bash
# Nothing to build: Hypothesis is vendored, jaxopt is imported from /repo's working tree.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -c "import pbt, hypothesis, jax, jaxopt; print('hypothesis', hypothesis.__version__, 'jaxopt from', jaxopt.__file__)"
