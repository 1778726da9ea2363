module verifharness

go 1.26.0

require github.com/forsyth/jsonpath v0.0.0

replace github.com/forsyth/jsonpath => /repo
