module github.com/indigo-web/chunkedbody

go 1.20
