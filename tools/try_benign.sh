#!/bin/bash
# try_benign.sh DIR ID: a scratch copy in DIR with the benign edit applied
cd "$(dirname "$0")" && bash scratch.sh $1 >/dev/null 2>&1; git -C $1/repo checkout -q -f HEAD
python3 -c "
import sys; sys.argv=['x']
import benign; benign.apply(benign.ALL['$2'][1], '$1/repo')"
