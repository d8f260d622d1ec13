module go.etcd.io/etcd/client/v3

go 1.16
