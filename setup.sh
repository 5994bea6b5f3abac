#!/bin/bash
# builds the MIR dumper into /verif/target (ignored by git); every check does so too when it is not there
cd "$(dirname "$0")/analyzer" || exit 2
exec python3 -c 'import check; print(check.driver())'
