#!/bin/bash
# RUSTC_WRAPPER of the simulator build. The code under test (and the bignum
# crate it computes with) is compiled with edge instrumentation, which gives the
# simulator a preemption/crash point and a work counter on every edge of the
# control-flow graph; FESTA_SIM_CFG selects the parameter set.
rustc="$1"; shift
cov="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
case " $* " in
  *" --crate-name festa_rs "*) exec "$rustc" "$@" $cov $FESTA_SIM_CFG ;;
  *" --crate-name num_bigint "*) exec "$rustc" "$@" $cov ;;
  *) exec "$rustc" "$@" ;;
esac
