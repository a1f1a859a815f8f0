#!/bin/bash
# exit 0: the property holds; not 0: it is broken
exec python3 "$(dirname "$0")/demo.py"
