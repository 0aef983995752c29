#!/bin/bash
# The checks need no build; this makes sure that the tools and modules are there.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=harness /opt/venv/bin/python -B -c 'import batch, driver, enums, findings, jobs, model, plan, scenarios, shrink, walks; print("harness ok")'
cd spec
for m in DschTrace Dsch; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla | tail -1
done
