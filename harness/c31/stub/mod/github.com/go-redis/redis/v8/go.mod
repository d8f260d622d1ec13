module github.com/go-redis/redis/v8

go 1.16
