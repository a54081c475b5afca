#!/bin/bash
# Nothing is built: confirms that the interpreter, the library under test and
# Hypothesis (from the offline tooling environment) can be imported together.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" /opt/venv/bin/python -c '
import svgpy, pbt.harness
print("ok", svgpy.__file__, pbt.harness.hypothesis.__version__)'
