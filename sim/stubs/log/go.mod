module github.com/hrygo/log

go 1.18

require go.uber.org/zap v1.21.0
