module vs

go 1.23
