// Package pflag is a small model of spf13/pflag.
package pflag

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

type Value interface {
	String() string
	Set(string) error
	Type() string
}

type Flag struct {
	Name, Shorthand, Usage, DefValue string
	Value                            Value
	Changed, Hidden                  bool
	NoOptDefVal, Deprecated          string
	Annotations                      map[string][]string
	reset                            func()
}

type FlagSet struct {
	Usage     func()
	SortFlags bool
	Flags     []*Flag
	name      string
}

func (f *FlagSet) add(fl *Flag) *Flag {
	fl.DefValue = fl.Value.String()
	f.Flags = append(f.Flags, fl)
	return fl
}

func (f *FlagSet) Lookup(n string) *Flag {
	for _, x := range f.Flags {
		if x.Name == n {
			return x
		}
	}
	return nil
}

func (f *FlagSet) ShorthandLookup(n string) *Flag {
	for _, x := range f.Flags {
		if x.Shorthand != "" && x.Shorthand == n {
			return x
		}
	}
	return nil
}

func (f *FlagSet) Changed(n string) bool {
	x := f.Lookup(n)
	return x != nil && x.Changed
}

func (f *FlagSet) Set(n, v string) error {
	x := f.Lookup(n)
	if x == nil {
		return fmt.Errorf("no such flag -%s", n)
	}
	if err := x.Value.Set(v); err != nil {
		return err
	}
	x.Changed = true
	return nil
}

func (f *FlagSet) MarkHidden(n string) error        { return nil }
func (f *FlagSet) MarkDeprecated(n, m string) error { return nil }
func (f *FlagSet) VisitAll(fn func(*Flag)) {
	for _, x := range f.Flags {
		fn(x)
	}
}

// Reset restores the defaults.
func (f *FlagSet) Reset() {
	for _, x := range f.Flags {
		x.Changed = false
		x.reset()
	}
}

type boolValue struct{ p *bool }

func (b boolValue) String() string { return strconv.FormatBool(*b.p) }
func (b boolValue) Type() string   { return "bool" }
func (b boolValue) Set(s string) error {
	v, err := strconv.ParseBool(s)
	if err == nil {
		*b.p = v
	}
	return err
}

type stringValue struct{ p *string }

func (b stringValue) String() string     { return *b.p }
func (b stringValue) Type() string       { return "string" }
func (b stringValue) Set(s string) error { *b.p = s; return nil }

type uintValue struct{ p *uint }

func (b uintValue) String() string { return strconv.FormatUint(uint64(*b.p), 10) }
func (b uintValue) Type() string   { return "uint" }
func (b uintValue) Set(s string) error {
	v, err := strconv.ParseUint(s, 0, 64)
	if err == nil {
		*b.p = uint(v)
	}
	return err
}

type uint64Value struct{ p *uint64 }

func (b uint64Value) String() string { return strconv.FormatUint(*b.p, 10) }
func (b uint64Value) Type() string   { return "uint64" }
func (b uint64Value) Set(s string) error {
	v, err := strconv.ParseUint(s, 0, 64)
	if err == nil {
		*b.p = v
	}
	return err
}

type intValue struct{ p *int }

func (b intValue) String() string { return strconv.Itoa(*b.p) }
func (b intValue) Type() string   { return "int" }
func (b intValue) Set(s string) error {
	v, err := strconv.ParseInt(s, 0, 64)
	if err == nil {
		*b.p = int(v)
	}
	return err
}

type int64Value struct{ p *int64 }

func (b int64Value) String() string { return strconv.FormatInt(*b.p, 10) }
func (b int64Value) Type() string   { return "int64" }
func (b int64Value) Set(s string) error {
	v, err := strconv.ParseInt(s, 0, 64)
	if err == nil {
		*b.p = v
	}
	return err
}

type floatValue struct{ p *float64 }

func (b floatValue) String() string { return "" }
func (b floatValue) Type() string   { return "float64" }
func (b floatValue) Set(s string) error {
	v, err := strconv.ParseFloat(s, 64)
	if err == nil {
		*b.p = v
	}
	return err
}

type durValue struct{ p *time.Duration }

func (b durValue) String() string { return "" }
func (b durValue) Type() string   { return "duration" }
func (b durValue) Set(s string) error {
	v, err := time.ParseDuration(s)
	if err == nil {
		*b.p = v
	}
	return err
}

type listValue struct {
	p       *[]string
	changed *bool
	split   bool
}

func (b listValue) String() string { return "" }
func (b listValue) Type() string   { return "stringSlice" }
func (b listValue) Set(s string) error {
	vs := []string{s}
	if b.split {
		vs = strings.Split(s, ",")
	}
	if !*b.changed {
		*b.p = nil
		*b.changed = true
	}
	*b.p = append(*b.p, vs...)
	return nil
}

func (f *FlagSet) VarPF(v Value, name, short, usage string) *Flag {
	fl := &Flag{Name: name, Shorthand: short, Usage: usage, Value: v}
	f.add(fl)
	def := fl.DefValue
	fl.reset = func() { v.Set(def) }
	return fl
}
func (f *FlagSet) Var(v Value, name, usage string)         { f.VarPF(v, name, "", usage) }
func (f *FlagSet) VarP(v Value, name, short, usage string) { f.VarPF(v, name, short, usage) }

func (f *FlagSet) BoolVarP(p *bool, name, short string, def bool, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: boolValue{p}, NoOptDefVal: "true", reset: func() { *p = def }})
}
func (f *FlagSet) BoolVar(p *bool, name string, def bool, usage string) {
	f.BoolVarP(p, name, "", def, usage)
}
func (f *FlagSet) BoolP(name, short string, def bool, usage string) *bool {
	p := new(bool)
	f.BoolVarP(p, name, short, def, usage)
	return p
}
func (f *FlagSet) Bool(name string, def bool, usage string) *bool {
	return f.BoolP(name, "", def, usage)
}

func (f *FlagSet) StringVarP(p *string, name, short string, def string, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: stringValue{p}, reset: func() { *p = def }})
}
func (f *FlagSet) StringVar(p *string, name string, def string, usage string) {
	f.StringVarP(p, name, "", def, usage)
}
func (f *FlagSet) StringP(name, short string, def string, usage string) *string {
	p := new(string)
	f.StringVarP(p, name, short, def, usage)
	return p
}
func (f *FlagSet) String(name string, def string, usage string) *string {
	return f.StringP(name, "", def, usage)
}

func (f *FlagSet) UintVarP(p *uint, name, short string, def uint, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: uintValue{p}, reset: func() { *p = def }})
}
func (f *FlagSet) UintVar(p *uint, name string, def uint, usage string) {
	f.UintVarP(p, name, "", def, usage)
}
func (f *FlagSet) UintP(name, short string, def uint, usage string) *uint {
	p := new(uint)
	f.UintVarP(p, name, short, def, usage)
	return p
}
func (f *FlagSet) Uint(name string, def uint, usage string) *uint {
	return f.UintP(name, "", def, usage)
}

func (f *FlagSet) Uint64VarP(p *uint64, name, short string, def uint64, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: uint64Value{p}, reset: func() { *p = def }})
}
func (f *FlagSet) Uint64Var(p *uint64, name string, def uint64, usage string) {
	f.Uint64VarP(p, name, "", def, usage)
}
func (f *FlagSet) Uint64(name string, def uint64, usage string) *uint64 {
	p := new(uint64)
	f.Uint64VarP(p, name, "", def, usage)
	return p
}

func (f *FlagSet) IntVarP(p *int, name, short string, def int, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: intValue{p}, reset: func() { *p = def }})
}
func (f *FlagSet) IntVar(p *int, name string, def int, usage string) {
	f.IntVarP(p, name, "", def, usage)
}
func (f *FlagSet) Int(name string, def int, usage string) *int {
	p := new(int)
	f.IntVarP(p, name, "", def, usage)
	return p
}

func (f *FlagSet) Int64VarP(p *int64, name, short string, def int64, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: int64Value{p}, reset: func() { *p = def }})
}
func (f *FlagSet) Int64Var(p *int64, name string, def int64, usage string) {
	f.Int64VarP(p, name, "", def, usage)
}

func (f *FlagSet) Float64VarP(p *float64, name, short string, def float64, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: floatValue{p}, reset: func() { *p = def }})
}
func (f *FlagSet) Float64Var(p *float64, name string, def float64, usage string) {
	f.Float64VarP(p, name, "", def, usage)
}

func (f *FlagSet) DurationVarP(p *time.Duration, name, short string, def time.Duration, usage string) {
	*p = def
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: durValue{p}, reset: func() { *p = def }})
}
func (f *FlagSet) DurationVar(p *time.Duration, name string, def time.Duration, usage string) {
	f.DurationVarP(p, name, "", def, usage)
}

func (f *FlagSet) StringSliceVarP(p *[]string, name, short string, def []string, usage string) {
	*p = def
	c := new(bool)
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: listValue{p, c, true}, reset: func() { *p = def; *c = false }})
}
func (f *FlagSet) StringSliceVar(p *[]string, name string, def []string, usage string) {
	f.StringSliceVarP(p, name, "", def, usage)
}
func (f *FlagSet) StringArrayVarP(p *[]string, name, short string, def []string, usage string) {
	*p = def
	c := new(bool)
	f.add(&Flag{Name: name, Shorthand: short, Usage: usage, Value: listValue{p, c, false}, reset: func() { *p = def; *c = false }})
}
func (f *FlagSet) StringArrayVar(p *[]string, name string, def []string, usage string) {
	f.StringArrayVarP(p, name, "", def, usage)
}
