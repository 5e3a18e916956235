// Package vlog stands in for log: what is logged is dropped, and a fatal
// message is a panic, which the harness sees.
package vlog

import (
	"fmt"
	"io"
	"log"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Exit is what a fatal message panics with.
type Exit struct{ Msg string }

func (e Exit) String() string { return "the program ends: " + e.Msg }

func New(w io.Writer, prefix string, flag int) *Logger { return log.New(w, prefix, flag) }
func Default() *Logger                                 { return log.New(io.Discard, "", 0) }
func SetOutput(w io.Writer)                            {}
func SetFlags(f int)                                   {}
func SetPrefix(p string)                               {}
func Flags() int                                       { return 0 }
func Print(v ...any)                                   {}
func Printf(f string, v ...any)                        {}
func Println(v ...any)                                 {}
func Fatal(v ...any)                                   { panic(Exit{fmt.Sprint(v...)}) }
func Fatalf(f string, v ...any)                        { panic(Exit{fmt.Sprintf(f, v...)}) }
func Fatalln(v ...any)                                 { panic(Exit{fmt.Sprintln(v...)}) }
func Panic(v ...any)                                   { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any)                        { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)                                 { panic(fmt.Sprintln(v...)) }
