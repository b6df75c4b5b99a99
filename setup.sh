#!/bin/bash
# Builds the library under test and every check.
exec "$(cd "$(dirname "$0")" && pwd)/check.sh" BUILD-ALL
