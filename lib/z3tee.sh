#!/bin/bash
# z3 with its answer copied to $VF_TEE, so that models over the reals can be read back exactly
z3-new "$@" | tee "$VF_TEE"
