module github.com/satori/go.uuid

go 1.26.0
