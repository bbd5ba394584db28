module verif/harness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/leonelquinteros/gotext v0.0.0
)

replace github.com/leonelquinteros/gotext => /repo
