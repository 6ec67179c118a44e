module verif/harness

go 1.20

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => /repo
