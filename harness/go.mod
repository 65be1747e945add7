module verif/harness

go 1.26.0

require (
	github.com/patrickhuang888/goorc v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/golang/protobuf v1.3.2 // indirect
	github.com/klauspost/compress v1.11.12 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/sirupsen/logrus v1.4.2 // indirect
	golang.org/x/sys v0.0.0-20190422165155-953cdadca894 // indirect
)

replace github.com/patrickhuang888/goorc => /repo
