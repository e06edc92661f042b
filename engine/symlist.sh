#!/bin/bash
# symbols the SUT must take from the simulator: every function sim_X of shim.cpp replaces X
cd "$(dirname "$0")"
grep -oE '\bsim_[A-Za-z_0-9]+ ?\(' shim.cpp | tr -d ' (' | sort -u | while read -r s; do [ "$s" = sim_init ] && continue; echo "${s#sim_} $s"; done
echo "main sut_main"
