module verifreplay

go 1.23.0

require (
	github.com/go-andiamo/aitch v0.0.0
	golang.org/x/net v0.37.0
)

replace github.com/go-andiamo/aitch => /repo
