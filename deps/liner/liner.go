// Package liner is an offline stand-in for github.com/peterh/liner (no terminal)
package liner

import (
	"errors"
	"io"
)

// ErrPromptAborted of the original
var ErrPromptAborted = errors.New("prompt aborted")

// Completer of a line
type Completer func(line string) []string

// State of a prompt
type State struct{}

// NewLiner creates
func NewLiner() *State { return new(State) }

// Close does nothing
func (s *State) Close() error { return nil }

// SetCtrlCAborts does nothing
func (s *State) SetCtrlCAborts(bool) {}

// SetCompleter does nothing
func (s *State) SetCompleter(Completer) {}

// Prompt has no terminal
func (s *State) Prompt(string) (string, error) { return "", io.EOF }

// AppendHistory does nothing
func (s *State) AppendHistory(string) {}

// ReadHistory does nothing
func (s *State) ReadHistory(io.Reader) (int, error) { return 0, nil }

// WriteHistory does nothing
func (s *State) WriteHistory(io.Writer) (int, error) { return 0, nil }
