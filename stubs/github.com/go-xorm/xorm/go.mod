module github.com/go-xorm/xorm

go 1.23
