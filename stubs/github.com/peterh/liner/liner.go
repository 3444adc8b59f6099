// Package liner is an offline type-level stand-in.
package liner

import (
	"errors"
	"io"
)

var ErrPromptAborted = errors.New("prompt aborted")

type State struct{}

func NewLiner() *State                               { return new(State) }
func (s *State) Close() error                        { return nil }
func (s *State) SetCtrlCAborts(bool)                 {}
func (s *State) SetCompleter(func(string) []string)  {}
func (s *State) SetTabCompletionStyle(int)           {}
func (s *State) Prompt(string) (string, error)       { return "", io.EOF }
func (s *State) AppendHistory(string)                {}
func (s *State) ReadHistory(io.Reader) (int, error)  { return 0, nil }
func (s *State) WriteHistory(io.Writer) (int, error) { return 0, nil }
