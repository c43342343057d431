#!/bin/bash
# builds the verification kernel and the native replay tool from the committed sources
cd "$(dirname "$0")" || exit 2
exec python3 -c "import sys; sys.path.insert(0,'engine'); import vlib; print(vlib.kernel()); print(vlib.searcher())"
