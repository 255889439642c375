#!/bin/bash
# developer driver: builds the engine and runs it with the given flags
cd /verif && bash setup.sh && . /opt/vp/env.sh && export PATH=/opt/veriftools/go1.24.13/bin:$PATH && exec .build/vfe -v "$@"
