#!/bin/sh
# cargo runs this in place of rustc: the library and the simulator get a call in every basic block (see hook/), nothing else does.
rustc=$1
shift
case " $* " in
*" --crate-name ucan "* | *" --crate-name ucan_key_support "* | *" --crate-name ucansim "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc
  ;;
esac
exec "$rustc" "$@"
