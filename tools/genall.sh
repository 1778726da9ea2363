#!/bin/bash
# writes harness/props/all.go: the harness functions by name
cd "$(dirname "$0")/../harness/props" || exit 1
{
echo "// Code generated by tools/genall.sh; DO NOT EDIT."
echo
echo "package props"
echo
echo "// All are the harness functions by name."
echo "var All = map[string]func(){"
cat *.go | sed -n 's/^func \([CK][0-9][0-9]_[A-Za-z0-9_]*\)() {.*/\t"\1": \1,/p' | sort
echo "}"
} > all.go.tmp
gofmt all.go.tmp > all.go
rm "$PWD/all.go.tmp"
# writes HARNESSES.md: what each harness covers, from its comment
{
echo "# The harnesses and their bounds"
echo
echo "Written by tools/genall.sh from the comments in harness/props. Each run copies these texts into the evidence"
echo "file, with the number of paths explored and whether all of them were."
awk '
/^\/\/ sym:/ { next }
/^\/\/ / { t = t " " substr($0, 4); next }
/^func C[0-9][0-9]_[A-Za-z0-9_]*\(\) \{/ { n = $2; sub(/\(.*/, "", n); sub("^ " n ": ", "", t); print n "\t" t; t = ""; next }
{ t = "" }
' *.go | sort | awk -F'\t' '{ p = substr($1, 1, 3); if (p != q) { print "\n## " p "\n"; q = p } print "- `" $1 "`: " $2 }'
} > ../../HARNESSES.md
