module vharness

go 1.16

require (
	github.com/akm/tparser v0.0.0
	golang.org/x/text v0.3.7
)

replace github.com/akm/tparser => /repo
