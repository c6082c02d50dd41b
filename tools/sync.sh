#!/bin/bash
# Drops objects whose source content changed since they were built, whatever the time stamps say.
R=${REPO:-/repo}; O=${OUT:-build}
mkdir -p "$O"
new=$(cd "$R" && find src include -type f \( -name '*.cc' -o -name '*.hh' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum)
if [ -f "$O/sources.sha" ] && [ "$new" != "$(cat "$O/sources.sha")" ]; then
  changed=$(diff <(cat "$O/sources.sha") <(echo "$new") | awk '/^[<>]/{print $3}' | sort -u)
  if echo "$changed" | grep -qv '\.cc$'; then
    rm -rf "$PWD/${O:?}/zk" "$PWD/${O:?}/h" "$PWD/${O:?}/tsan" "$PWD/${O:?}/zip"; rm -f "$PWD/${O:?}"/C?? "$PWD/${O:?}/libzk.a"
  else
    for f in $changed; do o=zk/$(echo "${f#src/}" | sed 's/\.cc$/.o/'); rm -f "$PWD/${O:?}/$o" "$PWD/${O:?}/tsan/$o" "$PWD/${O:?}/zip/$o"; done
    rm -f "$PWD/${O:?}/libzk.a" "$PWD/${O:?}"/C??
  fi
fi
echo "$new" > "$O/sources.sha"
