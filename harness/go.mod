module verif/harness

go 1.26.0

require (
	github.com/alexZaicev/go-vtd-xml v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/alexZaicev/go-vtd-xml => /repo
