cd /tmp/v && python3 /tmp/tryx.py && verus out.rs --crate-type=lib --rlimit 5 "$@" 2>&1
