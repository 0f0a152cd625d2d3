#!/bin/bash
# scratch.sh DIR: a scratch copy of /repo and of this directory looking at it (DIR/repo, DIR/verif)
cd "$(dirname "$0")" && python3 -c "
import sys, mutate, os
mutate.BASE = os.path.dirname('$1'); print(mutate.setup(int(os.path.basename('$1')[1:])))"
