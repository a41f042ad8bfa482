#!/bin/bash
# developer helper: run the obligations of one property with progress output
cd "$(dirname "$0")" && VERIF_DEBUG=${2:-1} PYTHONPATH=. timeout ${3:-120} python3-vt -X faulthandler -m pyvc.harness $1 quick 1 ${3:-120} /tmp/p_$1.json
