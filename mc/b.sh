here=/verif; . /verif/env.sh; cd /verif/mc; cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A6 | head -${1:-40}
