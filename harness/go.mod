module verif

go 1.27.0

require (
	github.com/codegangsta/cli v0.0.0
	github.com/davecgh/go-spew v0.0.0
	github.com/satori/go.uuid v0.0.0
	github.com/soh335/ical v0.0.0
	github.com/splendidmoons/suriya-go v0.0.0
	pgregory.net/rapid v1.3.0
)

replace (
	github.com/codegangsta/cli => ./stubs/cli
	github.com/davecgh/go-spew => ./stubs/spew
	github.com/satori/go.uuid => ./stubs/uuid
	github.com/soh335/ical => ./stubs/ical
	github.com/splendidmoons/suriya-go => /repo
)
