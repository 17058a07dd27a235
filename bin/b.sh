#!/bin/bash
# build the harness exactly as the checks do
cd "$(dirname "$0")" && python3 -c "import vp; vp.build()"
