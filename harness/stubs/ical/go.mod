module github.com/soh335/ical

go 1.26.0
