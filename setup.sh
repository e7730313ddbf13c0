#!/bin/bash
# nothing to install: every check builds its own harness
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
cargo --version
