#!/bin/bash
# builds the MIR driver; the checks build it themselves when it is missing
cd "$(dirname "$0")" && exec python3 -c "import run; run.build_driver()"
