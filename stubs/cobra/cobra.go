// Package cobra is a small model of spf13/cobra: flag parsing, sub-command
// dispatch and argument count checks.
package cobra

import (
	"fmt"
	"io"
	"os"

	"github.com/spf13/pflag"
)

type PositionalArgs func(cmd *Command, args []string) error

type CompletionOptions struct {
	DisableDefaultCmd, DisableNoDescFlag, DisableDescriptions, HiddenDefaultCmd bool
}

type ShellCompDirective int

type Command struct {
	Use, Short, Long, Example, Version, Deprecated, GroupID string
	Aliases, SuggestFor, ValidArgs, ArgAliases              []string
	Args                                                    PositionalArgs
	Annotations                                             map[string]string
	ValidArgsFunction                                       func(*Command, []string, string) ([]string, ShellCompDirective)

	PersistentPreRun, PreRun, Run, PostRun, PersistentPostRun      func(cmd *Command, args []string)
	PersistentPreRunE, PreRunE, RunE, PostRunE, PersistentPostRunE func(cmd *Command, args []string) error

	Hidden, SilenceErrors, SilenceUsage, DisableFlagParsing, DisableAutoGenTag, DisableFlagsInUseLine, DisableSuggestions, TraverseChildren bool
	SuggestionsMinimumDistance                                                                                                              int
	CompletionOptions                                                                                                                       CompletionOptions

	parent  *Command
	subs    []*Command
	flags   *pflag.FlagSet
	pflags  *pflag.FlagSet
	args    []string
	argsSet bool
}

func (c *Command) Name() string {
	for i := 0; i < len(c.Use); i++ {
		if c.Use[i] == ' ' {
			return c.Use[:i]
		}
	}
	return c.Use
}

func (c *Command) AddCommand(cs ...*Command) {
	for _, x := range cs {
		x.parent = c
		c.subs = append(c.subs, x)
	}
}

func (c *Command) Commands() []*Command { return c.subs }
func (c *Command) Parent() *Command     { return c.parent }
func (c *Command) HasParent() bool      { return c.parent != nil }
func (c *Command) Root() *Command {
	for c.parent != nil {
		c = c.parent
	}
	return c
}
func (c *Command) CommandPath() string {
	if c.parent != nil {
		return c.parent.CommandPath() + " " + c.Name()
	}
	return c.Name()
}

func (c *Command) Flags() *pflag.FlagSet {
	if c.flags == nil {
		c.flags = &pflag.FlagSet{}
	}
	return c.flags
}
func (c *Command) PersistentFlags() *pflag.FlagSet {
	if c.pflags == nil {
		c.pflags = &pflag.FlagSet{}
	}
	return c.pflags
}
func (c *Command) LocalFlags() *pflag.FlagSet     { return c.Flags() }
func (c *Command) InheritedFlags() *pflag.FlagSet { return c.Root().PersistentFlags() }
func (c *Command) Flag(n string) *pflag.Flag      { return c.lookup(n) }

func (c *Command) SetArgs(a []string)                            { c.args, c.argsSet = a, true }
func (c *Command) SetOut(w io.Writer)                            {}
func (c *Command) SetErr(w io.Writer)                            {}
func (c *Command) SetOutput(w io.Writer)                         {}
func (c *Command) SetVersionTemplate(s string)                   {}
func (c *Command) SetUsageTemplate(s string)                     {}
func (c *Command) SetHelpTemplate(s string)                      {}
func (c *Command) UsageTemplate() string                         { return "" }
func (c *Command) HelpTemplate() string                          { return "" }
func (c *Command) VersionTemplate() string                       { return "" }
func (c *Command) OutOrStdout() io.Writer                        { return os.Stdout }
func (c *Command) OutOrStderr() io.Writer                        { return os.Stderr }
func (c *Command) ErrOrStderr() io.Writer                        { return os.Stderr }
func (c *Command) Usage() error                                  { return nil }
func (c *Command) Help() error                                   { return nil }
func (c *Command) UsageString() string                           { return "" }
func (c *Command) MarkFlagRequired(n string) error               { return nil }
func (c *Command) MarkPersistentFlagRequired(n string) error     { return nil }
func (c *Command) MarkFlagFilename(n string, e ...string) error  { return nil }
func (c *Command) Println(a ...interface{})                      { fmt.Fprintln(os.Stderr, a...) }
func (c *Command) Print(a ...interface{})                        { fmt.Fprint(os.Stderr, a...) }
func (c *Command) Printf(f string, a ...interface{})             { fmt.Fprintf(os.Stderr, f, a...) }
func (c *Command) PrintErrln(a ...interface{})                   { fmt.Fprintln(os.Stderr, a...) }
func (c *Command) GenBashCompletion(w io.Writer) error           { return nil }
func (c *Command) GenBashCompletionV2(w io.Writer, d bool) error { return nil }
func (c *Command) GenZshCompletion(w io.Writer) error            { return nil }
func (c *Command) GenFishCompletion(w io.Writer, d bool) error   { return nil }
func (c *Command) GenPowerShellCompletion(w io.Writer) error     { return nil }

func NoArgs(cmd *Command, args []string) error {
	if len(args) > 0 {
		return fmt.Errorf("unknown command %q", args[0])
	}
	return nil
}
func ArbitraryArgs(cmd *Command, args []string) error { return nil }
func ExactArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) != n {
			return fmt.Errorf("accepts %d arg(s), received %d", n, len(args))
		}
		return nil
	}
}
func MinimumNArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) < n {
			return fmt.Errorf("requires at least %d arg(s), only received %d", n, len(args))
		}
		return nil
	}
}
func MaximumNArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) > n {
			return fmt.Errorf("accepts at most %d arg(s), received %d", n, len(args))
		}
		return nil
	}
}
func RangeArgs(lo, hi int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) < lo || len(args) > hi {
			return fmt.Errorf("accepts between %d and %d arg(s), received %d", lo, hi, len(args))
		}
		return nil
	}
}
func MatchAll(ps ...PositionalArgs) PositionalArgs {
	return func(cmd *Command, args []string) error {
		for _, p := range ps {
			if err := p(cmd, args); err != nil {
				return err
			}
		}
		return nil
	}
}

func OnInitialize(fs ...func()) { inits = append(inits, fs...) }
func CheckErr(e interface{}) {
	if e != nil {
		fmt.Fprintln(os.Stderr, "Error:", e)
		os.Exit(1)
	}
}

var inits []func()

func (c *Command) lookup(n string) *pflag.Flag {
	if c.flags != nil {
		if f := c.flags.Lookup(n); f != nil {
			return f
		}
	}
	for x := c; x != nil; x = x.parent {
		if x.pflags != nil {
			if f := x.pflags.Lookup(n); f != nil {
				return f
			}
		}
	}
	return nil
}

func (c *Command) lookupShort(n string) *pflag.Flag {
	if c.flags != nil {
		if f := c.flags.ShorthandLookup(n); f != nil {
			return f
		}
	}
	for x := c; x != nil; x = x.parent {
		if x.pflags != nil {
			if f := x.pflags.ShorthandLookup(n); f != nil {
				return f
			}
		}
	}
	return nil
}

func (c *Command) reset() {
	if c.flags != nil {
		c.flags.Reset()
	}
	if c.pflags != nil {
		c.pflags.Reset()
	}
	for _, s := range c.subs {
		s.reset()
	}
}

func isFlag(s string) bool { return len(s) > 1 && s[0] == '-' }

// parse sets flags and returns the positional arguments.
func (c *Command) parse(args []string, dry bool) ([]string, error) {
	var pos []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "--" {
			return append(pos, args[i+1:]...), nil
		}
		if !isFlag(a) {
			pos = append(pos, a)
			continue
		}
		var f *pflag.Flag
		name, val, has := "", "", false
		if a[1] == '-' {
			name = a[2:]
			for k := 0; k < len(name); k++ {
				if name[k] == '=' {
					name, val, has = name[:k], name[k+1:], true
					break
				}
			}
			f = c.lookup(name)
		} else {
			name = a[1:2]
			f = c.lookupShort(name)
			if len(a) > 2 {
				val, has = a[2:], true
				if val[0] == '=' {
					val = val[1:]
				} else if f != nil && f.NoOptDefVal != "" {
					// combined short flags
					if !dry {
						f.Value.Set(f.NoOptDefVal)
						f.Changed = true
					}
					args = append(append(append([]string(nil), args[:i+1]...), "-"+val), args[i+1:]...)
					continue
				}
			}
		}
		if f == nil {
			if dry {
				continue
			}
			return nil, fmt.Errorf("unknown flag: %s", a)
		}
		if !has {
			if f.NoOptDefVal != "" {
				val = f.NoOptDefVal
			} else {
				i++
				if i >= len(args) {
					return nil, fmt.Errorf("flag needs an argument: %s", a)
				}
				val = args[i]
			}
		}
		if dry {
			continue
		}
		if err := f.Value.Set(val); err != nil {
			return nil, fmt.Errorf("invalid argument %q for %q flag: %v", val, a, err)
		}
		f.Changed = true
	}
	return pos, nil
}

func (c *Command) ExecuteC() (*Command, error) {
	return c, c.Execute()
}

func (c *Command) Execute() error {
	root := c.Root()
	root.reset()
	args := root.args
	if !root.argsSet {
		args = os.Args[1:]
	}
	pos, _ := root.parse(args, true)
	cmd := root
	if len(pos) > 0 {
		for _, s := range root.subs {
			if s.Name() == pos[0] {
				cmd = s
			}
			for _, al := range s.Aliases {
				if al == pos[0] {
					cmd = s
				}
			}
		}
		if cmd == root && len(root.subs) > 0 {
			return root.fail(fmt.Errorf("unknown command %q", pos[0]))
		}
	}
	pos, err := cmd.parse(args, false)
	if err != nil {
		return root.fail(err)
	}
	if cmd != root {
		pos = pos[1:]
	}
	for _, f := range inits {
		f()
	}
	if cmd.Run == nil && cmd.RunE == nil {
		return nil
	}
	if cmd.Args != nil {
		if err := cmd.Args(cmd, pos); err != nil {
			return root.fail(err)
		}
	}
	for p := cmd; p != nil; p = p.parent {
		if p.PersistentPreRunE != nil {
			if err := p.PersistentPreRunE(cmd, pos); err != nil {
				return root.fail(err)
			}
			break
		} else if p.PersistentPreRun != nil {
			p.PersistentPreRun(cmd, pos)
			break
		}
	}
	if cmd.PreRunE != nil {
		if err := cmd.PreRunE(cmd, pos); err != nil {
			return root.fail(err)
		}
	} else if cmd.PreRun != nil {
		cmd.PreRun(cmd, pos)
	}
	if cmd.RunE != nil {
		if err := cmd.RunE(cmd, pos); err != nil {
			return root.fail(err)
		}
	} else {
		cmd.Run(cmd, pos)
	}
	if cmd.PostRunE != nil {
		if err := cmd.PostRunE(cmd, pos); err != nil {
			return root.fail(err)
		}
	} else if cmd.PostRun != nil {
		cmd.PostRun(cmd, pos)
	}
	for p := cmd; p != nil; p = p.parent {
		if p.PersistentPostRunE != nil {
			if err := p.PersistentPostRunE(cmd, pos); err != nil {
				return root.fail(err)
			}
			break
		} else if p.PersistentPostRun != nil {
			p.PersistentPostRun(cmd, pos)
			break
		}
	}
	return nil
}

func (c *Command) fail(err error) error {
	if !c.SilenceErrors {
		fmt.Fprintln(os.Stderr, "Error:", err)
	}
	return err
}
