package vmodel

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"

	"github.com/hound-search/hound/verifh/verifrt"
)

func itoa(n int64) string {
	if verifrt.IsSym(n) && n >= 0 && n < 1000 {
		return smallItoa(n)
	}
	return verifrt.Format("%d", n)
}

// smallItoa prints 0 <= n < 1000 (n may be symbolic).
func smallItoa(n int64) string {
	d := uint16(n)
	if d < 10 {
		return string([]byte{byte('0' + d)})
	}
	if d < 100 {
		return string([]byte{byte('0' + d/10), byte('0' + d%10)})
	}
	return string([]byte{byte('0' + d/100), byte('0' + d/10%10), byte('0' + d%10)})
}

func toStr(verb byte, flags string, a interface{}) string {
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if verb != 'v' || flags != "#" {
			switch x := a.(type) {
			case error:
				a = x.Error()
			case fmt.Stringer:
				a = x.String()
			}
		}
	}
	if verb == 'd' || verb == 'v' {
		switch x := a.(type) {
		case int:
			if flags == "" {
				return itoa(int64(x))
			}
		case int64:
			if flags == "" {
				return itoa(x)
			}
		}
	}
	if verb == 't' || verb == 'v' {
		if x, ok := a.(bool); ok && flags == "" {
			if x {
				return "true"
			}
			return "false"
		}
	}
	if verb == 'w' {
		verb = 'v'
		if e, ok := a.(error); ok {
			a = e.Error()
		}
	}
	return verifrt.Format("%"+flags+string([]byte{verb}), a)
}

//gosym:model fmt.Sprintf
func fmtSprintf(f string, args ...interface{}) string { return format(f, args) }

func format(f string, args []interface{}) string {
	var r []byte
	k := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			r = append(r, c)
			continue
		}
		i++
		st := i
		for i < len(f) && (f[i] >= '0' && f[i] <= '9' || f[i] == '.' || f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ') {
			i++
		}
		if i >= len(f) {
			r = append(r, "%!(NOVERB)"...)
			break
		}
		if f[i] == '%' {
			r = append(r, '%')
			continue
		}
		if k >= len(args) {
			r = append(r, "%!"...)
			r = append(r, f[i])
			r = append(r, "(MISSING)"...)
			continue
		}
		r = append(r, toStr(f[i], f[st:i], args[k])...)
		k++
	}
	if k < len(args) {
		r = append(r, "%!(EXTRA)"...)
	}
	return string(r)
}

func sprint(args []interface{}, ln bool) string {
	var r []byte
	prevStr := true
	for i, a := range args {
		_, isStr := a.(string)
		if i > 0 && (ln || !isStr && !prevStr) {
			r = append(r, ' ')
		}
		r = append(r, toStr('v', "", a)...)
		prevStr = isStr
	}
	if ln {
		r = append(r, '\n')
	}
	return string(r)
}

//gosym:model fmt.Sprint
func fmtSprint(args ...interface{}) string { return sprint(args, false) }

//gosym:model fmt.Sprintln
func fmtSprintln(args ...interface{}) string { return sprint(args, true) }

//gosym:model fmt.Fprintf
func fmtFprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	return w.Write([]byte(format(f, args)))
}

//gosym:model fmt.Fprint
func fmtFprint(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(sprint(args, false)))
}

//gosym:model fmt.Fprintln
func fmtFprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(sprint(args, true)))
}

//gosym:model fmt.Printf
func fmtPrintf(f string, args ...interface{}) (int, error) { return 0, nil }

//gosym:model fmt.Print
func fmtPrint(args ...interface{}) (int, error) { return 0, nil }

//gosym:model fmt.Println
func fmtPrintln(args ...interface{}) (int, error) { return 0, nil }

type wrapErr struct {
	msg string
	err error
}

func (w *wrapErr) Error() string { return w.msg }
func (w *wrapErr) Unwrap() error { return w.err }

//gosym:model fmt.Errorf
func fmtErrorf(f string, args ...interface{}) error {
	s := format(f, args)
	k := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			if f[i+1] == 'w' && k < len(args) {
				if e, ok := args[k].(error); ok {
					return &wrapErr{s, e}
				}
			}
			if f[i+1] == '%' {
				i++
				continue
			}
			k++
		}
	}
	return errors.New(s)
}

// Exits records how the process ended.
type ExitSentinel struct {
	Code int
	Msg  string
}

// ExitOK makes an exit of the process unwind to the harness instead of being a violation.
var ExitOK bool

// ExitHook is told when the process ends.
var ExitHook func(code int, msg string)

func exit(code int, msg string) {
	if ExitHook != nil {
		ExitHook(code, msg)
		select {}
	}
	if ExitOK {
		stop(ExitSentinel{code, msg})
	}
	verifrt.Fail("the process exits: " + msg)
}

//gosym:model os.Exit
func osExit(code int) { exit(code, "os.Exit") }

//gosym:model log.Printf
func logPrintf(f string, args ...interface{}) { verifrt.Log(f, args) }

//gosym:model log.Print
func logPrint(args ...interface{}) {}

//gosym:model log.Println
func logPrintln(args ...interface{}) {}

//gosym:model log.Fatalf
func logFatalf(f string, args ...interface{}) { exit(1, "log.Fatalf: "+f) }

//gosym:model log.Fatal
func logFatal(args ...interface{}) { exit(1, "log.Fatal") }

//gosym:model log.Fatalln
func logFatalln(args ...interface{}) { exit(1, "log.Fatal") }

//gosym:model log.Panicf
func logPanicf(f string, args ...interface{}) { panic(format(f, args)) }

//gosym:model log.Panic
func logPanic(args ...interface{}) { panic(sprint(args, false)) }

//gosym:model log.SetFlags
func logSetFlags(int) {}

//gosym:model log.SetOutput
func logSetOutput(io.Writer) {}

//gosym:model log.SetPrefix
func logSetPrefix(string) {}

//gosym:model log.New
func logNew(w io.Writer, p string, f int) *log.Logger { return new(log.Logger) }

//gosym:model (*log.Logger).Printf
func loggerPrintf(l *log.Logger, f string, args ...interface{}) {}

//gosym:model (*log.Logger).Println
func loggerPrintln(l *log.Logger, args ...interface{}) {}

//gosym:model (*log.Logger).Print
func loggerPrint(l *log.Logger, args ...interface{}) {}

//gosym:model (*log.Logger).Fatalf
func loggerFatalf(l *log.Logger, f string, args ...interface{}) { exit(1, f) }

//gosym:model (*log.Logger).Fatal
func loggerFatal(l *log.Logger, args ...interface{}) { exit(1, "log.Fatal") }

//gosym:model (*log.Logger).Panicf
func loggerPanicf(l *log.Logger, f string, args ...interface{}) { panic(format(f, args)) }

var _ = os.Exit
