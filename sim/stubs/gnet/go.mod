module github.com/panjf2000/gnet/v2

go 1.18

require github.com/panjf2000/ants/v2 v2.4.8
