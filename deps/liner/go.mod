module github.com/peterh/liner

go 1.23
