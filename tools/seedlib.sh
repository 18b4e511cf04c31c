reset() { git -C /tmp/bug checkout -q -- . ; git -C /tmp/bug clean -fdq src include rdf3x snap 2>/dev/null; }
meta() { mkdir -p /verif/seeded/$1; python3 - "$@" <<'E'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
E
}
