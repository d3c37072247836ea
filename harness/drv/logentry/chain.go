package logentry

import (
	"runtime"

	"flychain/log"
)

// call is one use of an entry point at the end of a chain of frames.
type call struct {
	entry string
	depth int
	lvl   log.Lvl
	lines []int
	files []string
	msg   string
	ctx   []interface{}
	l     log.Logger
}

func (c *call) at() *call {
	_, file, line, _ := runtime.Caller(1)
	c.lines = append(c.lines, line)
	c.files = append(c.files, base(file))
	return c
}

func base(s string) string {
	for k := len(s) - 1; k >= 0; k-- {
		if s[k] == '/' {
			return s[k+1:]
		}
	}
	return s
}

type frames func(c *call, next []frames)

func (c *call) end(next []frames) frames {
	if len(next) == 0 {
		return last
	}
	return next[0]
}

func rest(next []frames) []frames {
	if len(next) == 0 {
		return nil
	}
	return next[1:]
}

//go:noinline
func frame1(c *call, next []frames) { c.at().end(next)(c, rest(next)) }

func frame2(c *call, next []frames) {
	for k := 0; k < 1; k++ {
		c.at().end(next)(c, rest(next))
	}
}

type recv struct{}

func (r *recv) frame(c *call, next []frames) {
	func(c *call) { c.at().end(next)(c, rest(next)) }(c.at())
}

func small(c *call) { log.Output(c.at().msg, log.LvlWarn, c.depth, c.ctx...) }

// last calls the entry point.
func last(c *call, _ []frames) {
	switch c.entry {
	case "log.Trace":
		log.Trace(c.at().msg, c.ctx...)
	case "log.Debug":
		log.Debug(c.at().msg, c.ctx...)
	case "log.Info":
		log.Info(c.at().msg, c.ctx...)
	case "log.Warn":
		log.Warn(c.at().msg, c.ctx...)
	case "log.Error":
		log.Error(c.at().msg, c.ctx...)
	case "log.Crit":
		log.Crit(c.at().msg, c.ctx...)
	case "Trace":
		c.l.Trace(c.at().msg, c.ctx...)
	case "Debug":
		c.l.Debug(c.at().msg, c.ctx...)
	case "Info":
		c.l.Info(c.at().msg, c.ctx...)
	case "Warn":
		c.l.Warn(c.at().msg, c.ctx...)
	case "Error":
		c.l.Error(c.at().msg, c.ctx...)
	case "Crit":
		c.l.Crit(c.at().msg, c.ctx...)
	case "Output":
		log.Output(c.at().msg, c.lvl, c.depth, c.ctx...)
	case "OutputSmall":
		small(c.at())
	}
}
