module conform

go 1.25
