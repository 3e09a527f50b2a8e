#!/bin/bash
# developer helper: build the harness (plain)
. /verif/env.sh; cd /verif/harness && cargo build 2>&1 | grep -E "^(error|warning: unused)" -A9 | cut -c1-400
