package log

import (
	"go.uber.org/zap"
)

// function variables for all field types in github.com/uber-go/zap/field.go

const (
	InfoLevel   = zap.InfoLevel   // 0, default level
	WarnLevel   = zap.WarnLevel   // 1
	ErrorLevel  = zap.ErrorLevel  // 2
	DPanicLevel = zap.DPanicLevel // 3, PanicLevel used in development log
	PanicLevel  = zap.PanicLevel  // 4, PanicLevel logs a message, then panics
	FatalLevel  = zap.FatalLevel  // 5, FatalLevel logs a message, then calls os.Exit(1)
	DebugLevel  = zap.DebugLevel  // -1

	JsonFormat               = "json"
	ConsoleFormat            = "console"
	TimePrecisionSecond      = "second"
	TimePrecisionMillisecond = "millisecond"
)

var (
	Skip        = zap.Skip
	Binary      = zap.Binary
	Bool        = zap.Bool
	Boolp       = zap.Boolp
	ByteString  = zap.ByteString
	Complex128  = zap.Complex128
	Complex128p = zap.Complex128p
	Complex64   = zap.Complex64
	Complex64p  = zap.Complex64p
	Float64     = zap.Float64
	Float64p    = zap.Float64p
	Float32     = zap.Float32
	Float32p    = zap.Float32p
	Int         = zap.Int
	Intp        = zap.Intp
	Int64       = zap.Int64
	Int64p      = zap.Int64p
	Int32       = zap.Int32
	Int32p      = zap.Int32p
	Int16       = zap.Int16
	Int16p      = zap.Int16p
	Int8        = zap.Int8
	Int8p       = zap.Int8p
	String      = zap.String
	Stringp     = zap.Stringp
	Uint        = zap.Uint
	Uintp       = zap.Uintp
	Uint64      = zap.Uint64
	Uint64p     = zap.Uint64p
	Uint32      = zap.Uint32
	Uint32p     = zap.Uint32p
	Uint16      = zap.Uint16
	Uint16p     = zap.Uint16p
	Uint8       = zap.Uint8
	Uint8p      = zap.Uint8p
	Uintptr     = zap.Uintptr
	Uintptrp    = zap.Uintptrp
	Reflect     = zap.Reflect
	Namespace   = zap.Namespace
	Stringer    = zap.Stringer
	Time        = zap.Time
	Timep       = zap.Timep
	Stack       = zap.Stack
	StackSkip   = zap.StackSkip
	Duration    = zap.Duration
	Durationp   = zap.Durationp
	Any         = zap.Any

	WithCaller    = zap.WithCaller
	AddStacktrace = zap.AddStacktrace

	Info   = std.Info
	Warn   = std.Warn
	Error  = std.Error
	DPanic = std.DPanic
	Panic  = std.Panic
	Fatal  = std.Fatal
	Debug  = std.Debug

	Infof   = std.Sugar().Infof
	Warnf   = std.Sugar().Warnf
	Errorf  = std.Sugar().Errorf
	DPanicf = std.Sugar().DPanicf
	Panicf  = std.Sugar().Panicf
	Fatalf  = std.Sugar().Fatalf
	Debugf  = std.Sugar().Debugf
)
