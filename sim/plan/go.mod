module plan

go 1.23
