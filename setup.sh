#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" && bash "$here/build.sh" C16
