// Package log is the simulated log package.
package log

import (
	"fmt"

	"sim/rt"
)

func out(s string) { fmt.Fprintln(rt.Stderr, s) }

func Print(v ...any)            { out(fmt.Sprint(v...)) }
func Printf(f string, v ...any) { out(fmt.Sprintf(f, v...)) }
func Println(v ...any)          { out(fmt.Sprint(v...)) }
func Fatal(v ...any)            { out(fmt.Sprint(v...)); rt.Exit(1) }
func Fatalf(f string, v ...any) { out(fmt.Sprintf(f, v...)); rt.Exit(1) }
func Fatalln(v ...any)          { out(fmt.Sprint(v...)); rt.Exit(1) }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)          { panic(fmt.Sprint(v...)) }
