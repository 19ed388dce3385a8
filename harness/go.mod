module verif/harness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/waj334/tinygo-mqtt v0.0.0
)

replace github.com/waj334/tinygo-mqtt => /repo
