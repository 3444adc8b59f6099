module github.com/mattn/go-sqlite3

go 1.23
