module verif.local/sim

go 1.27

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => /repo
