// Package sub has call sites.
package sub

import (
	"runtime"

	"flychain/log"
	"github.com/go-stack/stack"
)

// Sites are distinct call sites: each logs at a level, or returns where it is.
var Sites = []func(l log.Logger, lvl int, msg string) (stack.Call, string, int){
	func(l log.Logger, lvl int, msg string) (c stack.Call, file string, line int) {
		switch lvl {
		case -1:
			c = stack.Caller(0)
			_, file, line, _ = runtime.Caller(0)
			return c, file, line - 1
		case 1:
			l.Error(msg)
		case 2:
			l.Warn(msg)
		case 3:
			l.Info(msg)
		case 4:
			l.Debug(msg)
		case 5:
			l.Trace(msg)
		}
		return
	},
	func(l log.Logger, lvl int, msg string) (c stack.Call, file string, line int) {
		switch lvl {
		case -1:
			c = stack.Caller(0)
			_, file, line, _ = runtime.Caller(0)
			return c, file, line - 1
		case 1:
			l.Error(msg)
		case 2:
			l.Warn(msg)
		case 3:
			l.Info(msg)
		case 4:
			l.Debug(msg)
		case 5:
			l.Trace(msg)
		}
		return
	},
}
