package errors

import "errors"

var (
	ErrEngineShutdown   = errors.New("server is going to be shutdown")
	ErrEngineInShutdown = errors.New("server is already in shutdown")
	ErrUnsupportedOp    = errors.New("unsupported operation")
)
