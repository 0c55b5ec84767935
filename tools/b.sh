cd /verif/harness; CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A14 | grep -v paladin-core| grep -A14 -E "^error" | head -${1:-80}
