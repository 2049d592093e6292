module github.com/go-vgo/gt/info

go 1.13
