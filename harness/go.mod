module verifharness

go 1.21

require (
	github.com/k0kubun/sqldef v0.0.0
	github.com/mattn/go-sqlite3 v1.14.7
)

replace github.com/k0kubun/sqldef => /repo
