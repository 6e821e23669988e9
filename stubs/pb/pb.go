// Package pb is an inert stand-in for the progress bar.
package pb

import (
	"io"
	"time"
)

type ProgressBarTemplate string
type ProgressBar struct{ cur, total int64 }

const (
	Full    ProgressBarTemplate = "full"
	Default ProgressBarTemplate = "default"
	Simple  ProgressBarTemplate = "simple"
)

type key int

const (
	Bytes key = 1 << iota
	Terminal
	Static
	ReturnSymbol
	Color
	CleanOnFinish
	SIBytesPrefix
)

func New(n int) *ProgressBar                               { return &ProgressBar{total: int64(n)} }
func New64(n int64) *ProgressBar                           { return &ProgressBar{total: n} }
func StartNew(n int) *ProgressBar                          { return New(n) }
func Start64(n int64) *ProgressBar                         { return New64(n) }
func (t ProgressBarTemplate) New(n int) *ProgressBar       { return New(n) }
func (t ProgressBarTemplate) Start(n int) *ProgressBar     { return New(n) }
func (t ProgressBarTemplate) Start64(n int64) *ProgressBar { return New64(n) }

func (p *ProgressBar) Start() *ProgressBar                            { return p }
func (p *ProgressBar) Finish() *ProgressBar                           { return p }
func (p *ProgressBar) SetCurrent(n int64) *ProgressBar                { p.cur = n; return p }
func (p *ProgressBar) SetTotal(n int64) *ProgressBar                  { p.total = n; return p }
func (p *ProgressBar) SetMaxWidth(n int) *ProgressBar                 { return p }
func (p *ProgressBar) SetWidth(n int) *ProgressBar                    { return p }
func (p *ProgressBar) SetRefreshRate(d time.Duration) *ProgressBar    { return p }
func (p *ProgressBar) SetTemplate(t ProgressBarTemplate) *ProgressBar { return p }
func (p *ProgressBar) SetTemplateString(t string) *ProgressBar        { return p }
func (p *ProgressBar) SetWriter(w io.Writer) *ProgressBar             { return p }
func (p *ProgressBar) Set(k, v interface{}) *ProgressBar              { return p }
func (p *ProgressBar) Add(n int) *ProgressBar                         { p.cur += int64(n); return p }
func (p *ProgressBar) Add64(n int64) *ProgressBar                     { p.cur += n; return p }
func (p *ProgressBar) AddTotal(n int64) *ProgressBar                  { p.total += n; return p }
func (p *ProgressBar) Increment() *ProgressBar                        { p.cur++; return p }
func (p *ProgressBar) Current() int64                                 { return p.cur }
func (p *ProgressBar) Total() int64                                   { return p.total }
func (p *ProgressBar) Write() *ProgressBar                            { return p }
func (p *ProgressBar) IsStarted() bool                                { return true }
func (p *ProgressBar) IsFinished() bool                               { return false }
func (p *ProgressBar) String() string                                 { return "" }
func (p *ProgressBar) Err() error                                     { return nil }
