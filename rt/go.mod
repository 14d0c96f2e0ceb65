module rt

go 1.21
