module verif/harness

go 1.21

require (
	github.com/zyedidia/generic v0.0.0
	golang.org/x/exp v0.0.0-20220218215828-6cf2b201936e
)

require github.com/segmentio/fasthash v1.0.3 // indirect

replace github.com/zyedidia/generic => /repo
