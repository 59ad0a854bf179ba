module github.com/codegangsta/cli

go 1.26.0
