// Package log is a simulator stand-in for github.com/hrygo/log v1.2.4: the
// same API on the real zap front end, with a recording core instead of files
// and standard output.  A file's entries become durable at Sync.
package log

import (
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"simrt"
	"simrt/simos"
)

type Level = zapcore.Level
type Field = zap.Field
type Option = zap.Option

// Rec is one recorded entry.
type Rec struct {
	File    string
	Level   Level
	Msg     string
	Fields  map[string]interface{}
	At      int64
	Durable bool
}

// Files holds the entries per log file; Std counts the entries of the console log per level.
var (
	Files   = map[string][]*Rec{}
	Std     = map[string]int{}
	Last    []string
	Echo    = os.Getenv("SIM_LOG") != ""
	OnWrite func(*Rec)
)

type core struct {
	file string
	lv   zapcore.LevelEnabler
	with []zapcore.Field
}

func (c *core) Enabled(l zapcore.Level) bool { return c.lv.Enabled(l) }
func (c *core) With(f []zapcore.Field) zapcore.Core {
	return &core{c.file, c.lv, append(append([]zapcore.Field{}, c.with...), f...)}
}
func (c *core) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}

func text(e zapcore.Entry, fs []zapcore.Field) string {
	m := zapcore.NewMapObjectEncoder()
	for _, f := range fs {
		f.AddTo(m)
	}
	s := fmt.Sprintf("%s %s", e.Level.CapitalString(), e.Message)
	if len(m.Fields) > 0 {
		s += fmt.Sprintf(" %v", m.Fields)
	}
	return s
}

func (c *core) Write(e zapcore.Entry, fs []zapcore.Field) error {
	simrt.Y()
	if Echo {
		fmt.Fprintf(os.Stderr, "%12.6f g%d %s\n", float64(simrt.PeekNs())/1e9, simrt.CurID(), text(e, fs))
	}
	if c.file == "" {
		Std[e.Level.String()]++
		if e.Level >= zapcore.WarnLevel {
			if len(Last) >= 40 {
				Last = append(Last[:0], Last[20:]...)
			}
			Last = append(Last, fmt.Sprintf("%.6f %s %s", float64(simrt.PeekNs())/1e9, e.Level, e.Message))
		}
	} else {
		m := zapcore.NewMapObjectEncoder()
		for _, f := range c.with {
			f.AddTo(m)
		}
		for _, f := range fs {
			f.AddTo(m)
		}
		r := &Rec{File: c.file, Level: e.Level, Msg: e.Message, Fields: m.Fields, At: simrt.PeekNs()}
		Files[c.file] = append(Files[c.file], r)
		if OnWrite != nil {
			OnWrite(r)
		}
	}
	if e.Level == zapcore.FatalLevel {
		simrt.ProcessExit(1, "log.Fatal: "+e.Message)
	}
	return nil
}

func (c *core) Sync() error {
	simrt.Y()
	for _, r := range Files[c.file] {
		r.Durable = true
	}
	return nil
}

type clock struct{}

func (clock) Now() time.Time                         { return simrt.TimeNow() }
func (clock) NewTicker(d time.Duration) *time.Ticker { return time.NewTicker(d) }

func build(cores []zapcore.Core, opts ...Option) *zap.Logger {
	return zap.New(zapcore.NewTee(cores...), append([]Option{zap.WithClock(clock{})}, opts...)...)
}

var std = New(os.Stdout, DebugLevel, WithCaller(true), zap.AddStacktrace(FatalLevel))

// ProductionDefault as in the library.
func ProductionDefault(opts ...Option) {
	ResetDefault(build([]zapcore.Core{&core{lv: InfoLevel}}, opts...))
}

// ResetDefault not safe for concurrent use
func ResetDefault(l *zap.Logger) {
	std = l

	Info = std.Info
	Warn = std.Warn
	Error = std.Error
	DPanic = std.DPanic
	Panic = std.Panic
	Fatal = std.Fatal
	Debug = std.Debug

	Infof = std.Sugar().Infof
	Warnf = std.Sugar().Warnf
	Errorf = std.Sugar().Errorf
	DPanicf = std.Sugar().DPanicf
	Panicf = std.Sugar().Panicf
	Fatalf = std.Sugar().Fatalf
	Debugf = std.Sugar().Debugf
}

type RotateOptions struct {
	MaxSize    int
	MaxAge     int
	MaxBackups int
	Compress   bool
}

type LevelEnablerFunc func(lvl Level) bool

type TeeOption struct {
	Filename      string
	TimePrecision string
	TextFormat    string
	Ropt          RotateOptions
	Level         zapcore.LevelEnabler
}

func NewTeeWithRotate(tops []TeeOption, opts ...Option) *zap.Logger {
	var cores []zapcore.Core
	for _, t := range tops {
		cores = append(cores, &core{file: t.Filename, lv: t.Level})
	}
	return build(cores, opts...)
}

func New(writer io.Writer, level Level, opts ...Option) *zap.Logger {
	if writer == nil {
		panic("the writer is nil")
	}
	return build([]zapcore.Core{&core{lv: level}}, opts...)
}

func BasePath() (path string) {
	path = simos.Getenv("CONF_LOG_PATH")
	if len(path) == 0 {
		return "logs/"
	}
	if !strings.HasSuffix(path, "/") {
		path += "/"
	}
	return
}

func Sync() {
	if std != nil {
		_ = std.Sync()
	}
}

func Default() *zap.Logger                   { return std }
func StdoutHooker(entry zapcore.Entry) error { return nil }
