module radixverif

go 1.24

require (
	github.com/golang/snappy v0.0.2
	github.com/jayloop/radix v0.0.0
	github.com/jayloop/table v0.0.0-20201002104108-cd6c88e54e20
)

require (
	github.com/chzyer/logex v1.1.10 // indirect
	github.com/chzyer/readline v0.0.0-20180603132655-2972be24d48e // indirect
	github.com/chzyer/test v0.0.0-20180213035817-a1ea475d72b1 // indirect
	golang.org/x/sys v0.0.0-20200323222414-85ca7c5b95cd // indirect
)

replace github.com/jayloop/radix => /repo
