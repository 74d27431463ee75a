#!/bin/bash
# Validates the stand-ins of /verif/shim: builds the repository's own test suites (all of them: grammar, Markdown parser,
# snowcrash, drafter with its fixtures) against the stand-ins and compares what fails with what is known to differ.
# usage: standins.sh [REPO]
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${1:-/repo}
o=$(mktemp -d)
trap 'rm -r "$o"' EXIT
sed "s#^R := .*#R := $repo/packages#; s#^V := .*#V := $here#; s#/repo/packages/drafter/test/fixtures#$repo/packages/drafter/test/fixtures#" "$here/tools/standins/standins.mk" > "$o/mk"
make -s -f "$o/mk" O="$o" -j8 || exit 2
for t in apib-tests drafter-tests; do
    "$o/$t" -r xml | python3 -c "
import sys, xml.etree.ElementTree as E
r = E.fromstring(sys.stdin.read())
for c in r.iter('TestCase'):
    if c.find('OverallResult').get('success') != 'true':
        print(c.get('name'))
print('--', sum(1 for _ in r.iter('TestCase')), 'test cases', file=sys.stderr)"
done | sort > "$o/failed"
diff "$here/tools/standins/differs.txt" "$o/failed" && echo "as known"
