// Package log stands in for the standard package: printing is dropped (or goes
// to the run's trace), Fatal ends the simulated process.
package log

import (
	"fmt"
	"io"
	real "log"

	"verif.local/sim/dst"
)

func Print(v ...interface{})            { out(fmt.Sprint, v) }
func Println(v ...interface{})          { out(fmt.Sprintln, v) }
func Printf(f string, v ...interface{}) { outf(f, v) }
func Output(depth int, m string) error  { return nil }

func out(f func(...interface{}) string, v []interface{}) {
	dst.Y(0)
	if dst.Tracing() {
		dst.Logf("log: %s", f(v...))
	}
}

func outf(f string, v []interface{}) {
	dst.Y(0)
	if dst.Tracing() {
		dst.Logf("log: %s", fmt.Sprintf(f, v...))
	}
}

func Fatal(v ...interface{})            { dst.Exit("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalln(v ...interface{})          { dst.Exit("log.Fatal: " + fmt.Sprintln(v...)) }
func Fatalf(f string, v ...interface{}) { dst.Exit("log.Fatal: " + fmt.Sprintf(f, v...)) }
func Panic(v ...interface{})            { panic(fmt.Sprint(v...)) }
func Panicln(v ...interface{})          { panic(fmt.Sprintln(v...)) }
func Panicf(f string, v ...interface{}) { panic(fmt.Sprintf(f, v...)) }

// Logger is log.Logger.
type Logger struct{ prefix string }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{prefix} }
func Default() *Logger                                 { return &Logger{} }

func (l *Logger) Print(v ...interface{})            { Print(v...) }
func (l *Logger) Println(v ...interface{})          { Println(v...) }
func (l *Logger) Printf(f string, v ...interface{}) { Printf(f, v...) }
func (l *Logger) Fatal(v ...interface{})            { Fatal(v...) }
func (l *Logger) Fatalln(v ...interface{})          { Fatalln(v...) }
func (l *Logger) Fatalf(f string, v ...interface{}) { Fatalf(f, v...) }
func (l *Logger) Panic(v ...interface{})            { Panic(v...) }
func (l *Logger) Panicln(v ...interface{})          { Panicln(v...) }
func (l *Logger) Panicf(f string, v ...interface{}) { Panicf(f, v...) }
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) Prefix() string                    { return l.prefix }
func (l *Logger) SetFlags(int)                      {}
func (l *Logger) Flags() int                        { return 0 }
func (l *Logger) SetOutput(io.Writer)               {}
func (l *Logger) Writer() io.Writer                 { return io.Discard }
func (l *Logger) Output(int, string) error          { return nil }

func SetFlags(int)        {}
func SetPrefix(string)    {}
func SetOutput(io.Writer) {}
func Flags() int          { return real.LstdFlags }
func Prefix() string      { return "" }
func Writer() io.Writer   { return io.Discard }
