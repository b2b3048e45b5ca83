module verif/harness

go 1.22

require github.com/pbnjay/grate v0.0.0

replace github.com/pbnjay/grate => /repo
