#!/bin/bash
# Nothing has to be built ahead: every check compiles what it needs from the
# repository's working tree. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 -c 'import json,glob; [json.load(open(f)) for f in glob.glob("checks/*/check.json")]'
echo 'int main(){}' | g++ -std=c++20 -x c++ -Ilib -include mc.hpp -fsyntax-only -
echo setup ok
