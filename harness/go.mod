module verifharness

go 1.21

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/google/uuid v1.3.0
	github.com/r3volut1oner/go-karbo v0.0.0
	github.com/sirupsen/logrus v1.6.0
	go.uber.org/zap v1.21.0
)

require (
	github.com/signalsciences/ipv4 v1.4.0 // indirect
	go.uber.org/atomic v1.9.0 // indirect
	go.uber.org/multierr v1.7.0 // indirect
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9 // indirect
	golang.org/x/sys v0.0.0-20210510120138-977fb7262007 // indirect
)

replace github.com/r3volut1oner/go-karbo => /repo
