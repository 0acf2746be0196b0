#!/bin/sh
. /opt/vp/env.sh; cd /verif/harness; CARGO_TARGET_DIR=/verif/target cargo build --offline 2>&1 | grep -E "^error|warning: unused|Finished|-->" -A6 | head -${1:-40}
