export HXSIM_VERIF=/tmp/hv H=/verif/sim/target/x86_64-unknown-linux-gnu/debug/hxsim
