module harness

go 1.23
