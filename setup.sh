#!/bin/bash
# builds the syntax-tree dumper; the checks build it themselves when it is missing
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, 'vp')
import prog; print(prog.dumper())"
