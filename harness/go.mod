module verif/harness

go 1.21

require github.com/aboukirev/ouro v0.0.0

replace github.com/aboukirev/ouro => /repo
