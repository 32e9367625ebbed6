module github.com/kpango/fastime

go 1.23

require vs v0.0.0
