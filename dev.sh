#!/bin/bash
# dev helper: run several checks, briefly
cd "$(dirname "$0")"; for i in "$@"; do ./run.sh $i 2>&1 | cut -c1-1500 | head -${LINES_MAX:-25}; done
