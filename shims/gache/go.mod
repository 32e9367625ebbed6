module github.com/kpango/gache

go 1.23

require vs v0.0.0
