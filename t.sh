#!/bin/bash
# t.sh <ID> [args]: terse run for development
/verif/check.sh "$@" -v 2>&1 | sed 's/labels.*ratios/R/' | cut -c1-${W:-420}
