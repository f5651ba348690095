// Package log is a stand-in for github.com/Breeze0806/go/log, which cannot be
// fetched offline. It offers the identifiers gobinlog uses and discards output.
package log

import "io"

// Level of a message.
type Level int

// Levels.
const (
	DebugLevel Level = iota
	InfoLevel
	ErrorLevel
)

// Logger used by gobinlog and by the mysql driver.
type Logger interface {
	Errorf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Debugf(format string, args ...interface{})
	Print(args ...interface{})
}

type nop struct{}

func (nop) Errorf(format string, args ...interface{}) {}
func (nop) Infof(format string, args ...interface{})  {}
func (nop) Debugf(format string, args ...interface{}) {}
func (nop) Print(args ...interface{})                 {}

var cur Logger = nop{}

// NewDefaultLogger returns a logger that discards everything.
func NewDefaultLogger(w io.Writer, l Level, prefix string) Logger { return nop{} }

// SetLogger replaces the logger.
func SetLogger(l Logger) { cur = l }

// GetLogger returns the logger.
func GetLogger() Logger { return cur }
