#!/bin/bash
# tools/mkcfg.sh NAME "INVARIANTS" [CONSTRAINT|-] "A = 1" "B = 2" ...   writes spec/NAME.cfg
n=$1; i=$2; c=$3; shift 3
{ echo "SPECIFICATION Spec"; echo "CONSTANTS"; for x in "$@"; do echo "  $x"; done; echo "INVARIANTS $i"; [ "$c" != - ] && echo "CONSTRAINT $c"; } > "$(dirname "$0")/../spec/$n.cfg"
