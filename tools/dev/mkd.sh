# mkd.sh ID < body
{ cat <<'X'
#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cd "$D"; unset CLAZY_CHECKS CLAZY_HEADER_FILTER CLAZY_IGNORE_DIRS CLAZY_CHECKS_AS_ERRORS
S=/repo/_build/bin/clazy-standalone
X
cat; } > /verif/seeded/$1/demo.sh
