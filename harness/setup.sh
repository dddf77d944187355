#!/bin/bash
# Builds everything once; checks rebuild from /repo's current sources anyway.
cd "$(dirname "${BASH_SOURCE[0]}")/.."
harness/build.sh build/h build/h/session_driver build/h/spy_driver build/h/types_driver build/h/conf_driver build/h/app
