// Package log is the simulated log package of the instrumented build: the fatal functions end the simulated process.
// Everything not defined here is forwarded to the real package by a generated file.
package log

import (
	"bytes"
	"fmt"
	"io"
	real "log"

	sos "github.com/nginxinc/nginx-go-crossplane/internal/verifsim/sos"
)

// Logger formats with a real logger (without a clock) and writes outside of any lock.
type Logger struct {
	r   *real.Logger
	buf bytes.Buffer
	w   io.Writer
	fl  int
}

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return sos.Stderr.Write(p) }

func New(w io.Writer, prefix string, flag int) *Logger {
	l := &Logger{w: w, fl: flag}
	l.r = real.New(&l.buf, prefix, flag&real.Lmsgprefix)
	return l
}

var std *Logger

// Reset starts a new process.
func Reset() { std = New(stderr{}, "", real.LstdFlags) }

func init() { Reset() }

func Default() *Logger { return std }

func (l *Logger) Output(depth int, s string) error {
	l.buf.Reset()
	_ = l.r.Output(depth, s)
	_, err := l.w.Write(append([]byte(nil), l.buf.Bytes()...))
	return err
}
func (l *Logger) SetOutput(w io.Writer)             { l.w = w }
func (l *Logger) Writer() io.Writer                 { return l.w }
func (l *Logger) Flags() int                        { return l.fl }
func (l *Logger) SetFlags(f int)                    { l.fl = f; l.r.SetFlags(f & real.Lmsgprefix) }
func (l *Logger) Prefix() string                    { return l.r.Prefix() }
func (l *Logger) SetPrefix(p string)                { l.r.SetPrefix(p) }
func (l *Logger) Print(v ...interface{})            { _ = l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Println(v ...interface{})          { _ = l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { _ = l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); sos.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); sos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); sos.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { l.Print(v...); panic(fmt.Sprint(v...)) }
func (l *Logger) Panicln(v ...interface{})          { l.Println(v...); panic(fmt.Sprintln(v...)) }
func (l *Logger) Panicf(f string, v ...interface{}) { l.Printf(f, v...); panic(fmt.Sprintf(f, v...)) }

func Output(depth int, s string) error  { return std.Output(depth, s) }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func Writer() io.Writer                 { return std.Writer() }
func Flags() int                        { return std.Flags() }
func SetFlags(f int)                    { std.SetFlags(f) }
func Prefix() string                    { return std.Prefix() }
func SetPrefix(p string)                { std.SetPrefix(p) }
func Print(v ...interface{})            { std.Print(v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
