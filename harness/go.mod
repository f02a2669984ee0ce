module verif/harness

go 1.27

require (
	bitbucket.org/creachadair/stringset v0.0.14
	github.com/cenkalti/backoff/v4 v4.3.0
	github.com/golang/glog v1.2.4
	github.com/google/go-cmp v0.6.0
	github.com/kylelemons/godebug v1.1.0
	github.com/openconfig/gnmi v1.0.0
	github.com/openconfig/grpctunnel v0.1.0
	github.com/openconfig/ygot v0.29.20
	github.com/protocolbuffers/txtpbfmt v0.0.0-20240823084532-8e6b51fa9bef
	golang.org/x/crypto v0.32.0
	golang.org/x/net v0.34.0
	google.golang.org/grpc v1.69.2
	google.golang.org/grpc/cmd/protoc-gen-go-grpc v1.5.1
	google.golang.org/protobuf v1.36.2
)

require (
	github.com/mitchellh/go-wordwrap v1.0.1 // indirect
	github.com/openconfig/goyang v1.6.0 // indirect
	golang.org/x/exp v0.0.0-20241009180824-f66d83c29e7c // indirect
	golang.org/x/sys v0.29.0 // indirect
	golang.org/x/term v0.28.0 // indirect
	golang.org/x/text v0.21.0 // indirect
	google.golang.org/genproto/googleapis/rpc v0.0.0-20250106144421-5f5ef82da422 // indirect
)

replace github.com/openconfig/gnmi => /repo
