# usage: mk.sh ID PROP "needs" "breaks"   (patch taken from worktree /tmp/wt diff)
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
python3 - "$ID" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
git -C /tmp/wt checkout -q -- .
