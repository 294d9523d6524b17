module github.com/cespare/xxhash

go 1.13
