module sim

go 1.24.0
