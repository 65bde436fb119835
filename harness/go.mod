module verif/harness

go 1.18

require (
	github.com/gogo/protobuf v1.3.2
	github.com/katydid/katydid v0.0.0
)

replace github.com/katydid/katydid => /repo
