module github.com/quic-go/quic-go

go 1.20
