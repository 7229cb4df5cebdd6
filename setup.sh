#!/bin/bash
# nothing to compile: see that the simulator and the code under test load
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" && mkdir -p evidence replays && bash check.sh list
