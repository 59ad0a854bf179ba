module github.com/splendidmoons/suriya-go

go 1.27.0

require (
	github.com/codegangsta/cli v0.0.0
	github.com/davecgh/go-spew v0.0.0
	github.com/satori/go.uuid v0.0.0
	github.com/soh335/ical v0.0.0
)
