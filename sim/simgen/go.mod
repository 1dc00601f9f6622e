module simgen

go 1.22
