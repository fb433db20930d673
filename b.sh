cd /verif/engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ../bin/gosym ./cmd/gosym
