module aliasgen

go 1.22
