#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
want=P02
. "$here/tools/build.sh" || exit 2
"$here/target/release/mc" list > /dev/null
