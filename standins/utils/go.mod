module github.com/indigo-web/utils

go 1.20
