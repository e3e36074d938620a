#!/bin/bash
# Builds the engine and the cached runtime models (offline, from the committed files).
set -e
cd "$(dirname "$0")"
engine/build.sh
python3 - <<'E'
import sys; sys.argv = ["check.py"]; src = open("check.py").read().replace("sys.exit(main())", ""); __file__ = "check.py"
exec(compile(src, "check.py", "exec"))
cached_rt()
E
