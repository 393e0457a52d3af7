#!/bin/bash
# run a command while the vcheck-pass tag of /repo is set aside: the build derives its version from
# the latest tag and cannot parse this one
ref=refs/tags/vcheck-pass
sha=$(git -C /repo rev-parse -q --verify $ref)
back() { [ -z "$sha" ] || git -C /repo update-ref $ref "$sha"; }
trap back EXIT
[ -z "$sha" ] || git -C /repo update-ref -d $ref
"$@"
