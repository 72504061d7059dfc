module wiki2book

go 1.24.0

toolchain go1.24.1

require (
	github.com/go-shiori/go-epub v1.2.1
	github.com/hauke96/sigolo/v2 v2.0.0-SNAPSHOT.11
	github.com/pkg/errors v0.9.1
	github.com/spf13/cobra v1.10.1
	golang.org/x/net v0.47.0
)

require (
	github.com/gabriel-vasile/mimetype v1.4.11 // indirect
	github.com/gofrs/uuid/v5 v5.4.0 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/spf13/pflag v1.0.10 // indirect
	github.com/vincent-petithory/dataurl v1.0.0 // indirect
	golang.org/x/text v0.31.0 // indirect
)
