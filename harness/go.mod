module verif/harness

go 1.25

// the same runtime defaults as a program built against the repository's own go.mod
godebug default=go1.21

require (
	github.com/google/uuid v1.3.0
	github.com/teonet-go/tru v0.0.0
	golang.org/x/sys v0.11.0
)

require github.com/kirill-scherba/stable v0.0.8 // indirect

replace github.com/teonet-go/tru => /repo
