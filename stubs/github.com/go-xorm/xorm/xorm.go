// Package xorm is an offline type-level stand-in.
package xorm

import "database/sql"

type Engine struct{}
type Session struct{}

func NewEngine(driver, src string) (*Engine, error) { return new(Engine), nil }

func (*Engine) SetMaxIdleConns(int)                                       {}
func (*Engine) SetMaxOpenConns(int)                                       {}
func (*Engine) ShowSQL(...bool)                                           {}
func (*Engine) Ping() error                                               { return nil }
func (*Engine) Close() error                                              { return nil }
func (*Engine) Exec(...interface{}) (sql.Result, error)                   { return nil, nil }
func (*Engine) IsTableExist(interface{}) (bool, error)                    { return false, nil }
func (*Engine) NewSession() *Session                                      { return new(Session) }
func (*Engine) Where(interface{}, ...interface{}) *Session                { return new(Session) }
func (*Engine) Join(string, interface{}, string, ...interface{}) *Session { return new(Session) }
func (*Engine) Insert(...interface{}) (int64, error)                      { return 0, nil }

func (*Session) Close()                                                      {}
func (*Session) Begin() error                                                { return nil }
func (*Session) Commit() error                                               { return nil }
func (*Session) Rollback() error                                             { return nil }
func (s *Session) Where(interface{}, ...interface{}) *Session                { return s }
func (s *Session) Join(string, interface{}, string, ...interface{}) *Session { return s }
func (s *Session) In(string, ...interface{}) *Session                        { return s }
func (s *Session) Desc(...string) *Session                                   { return s }
func (s *Session) Table(interface{}) *Session                                { return s }
func (s *Session) Limit(int, ...int) *Session                                { return s }
func (s *Session) Find(interface{}, ...interface{}) error                    { return nil }
func (s *Session) Get(interface{}) (bool, error)                             { return false, nil }
func (s *Session) Exist(...interface{}) (bool, error)                        { return false, nil }
func (s *Session) Count(...interface{}) (int64, error)                       { return 0, nil }
func (s *Session) Insert(...interface{}) (int64, error)                      { return 0, nil }
func (s *Session) Update(interface{}, ...interface{}) (int64, error)         { return 0, nil }
func (s *Session) Delete(interface{}) (int64, error)                         { return 0, nil }
