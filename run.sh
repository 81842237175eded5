#!/bin/bash
# run.sh <property> [quick|thorough] | run.sh <property> replay <file>
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
exec python -m vlib.main "$@"
