module verif/harness

go 1.21

require github.com/hymkor/gmnlisp v0.0.0

replace github.com/hymkor/gmnlisp => /repo
