module verif/harness

go 1.16

require github.com/akm/tparser v0.0.0

replace github.com/akm/tparser => /repo
