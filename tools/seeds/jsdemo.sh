#!/bin/bash
# run with cwd = the repository; prints what broke and exits 1 when the property does not hold
D=$(cd "$(dirname "$0")" && pwd)
node "$D/main.js"
