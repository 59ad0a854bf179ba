// Package cli is a stand-in for github.com/codegangsta/cli (v1): commands with
// flags, actions of the two usual shapes.
package cli

import (
	"flag"
	"fmt"
	"io"
	"os"
	"strconv"
	"time"
)

type Flag interface {
	apply(*flag.FlagSet)
}

type StringFlag struct {
	Name, Usage, Value, EnvVar string
	Destination                *string
	Hidden                     bool
}

func (f StringFlag) apply(s *flag.FlagSet) {
	v := f.Value
	if f.EnvVar != "" {
		if e := os.Getenv(f.EnvVar); e != "" {
			v = e
		}
	}
	s.String(f.Name, v, f.Usage)
}

type BoolFlag struct {
	Name, Usage, EnvVar string
	Hidden              bool
}

func (f BoolFlag) apply(s *flag.FlagSet) { s.Bool(f.Name, false, f.Usage) }

type IntFlag struct {
	Name, Usage, EnvVar string
	Value               int
	Hidden              bool
}

func (f IntFlag) apply(s *flag.FlagSet) { s.Int(f.Name, f.Value, f.Usage) }

type Args []string

func (a Args) Get(n int) string {
	if n < len(a) {
		return a[n]
	}
	return ""
}
func (a Args) First() string { return a.Get(0) }
func (a Args) Present() bool { return len(a) != 0 }

type Context struct {
	App     *App
	Command Command
	set     *flag.FlagSet
	parent  *Context
}

func NewContext(app *App, set *flag.FlagSet, parent *Context) *Context {
	return &Context{App: app, set: set, parent: parent}
}

func (c *Context) lookup(name string) *flag.Flag {
	if c.set == nil {
		return nil
	}
	return c.set.Lookup(name)
}

func (c *Context) String(name string) string {
	if f := c.lookup(name); f != nil {
		return f.Value.String()
	}
	return ""
}

func (c *Context) GlobalString(name string) string {
	for x := c; x != nil; x = x.parent {
		if f := x.lookup(name); f != nil {
			return f.Value.String()
		}
	}
	return ""
}

func (c *Context) Bool(name string) bool {
	b, _ := strconv.ParseBool(c.String(name))
	return b
}

func (c *Context) Int(name string) int {
	n, _ := strconv.Atoi(c.String(name))
	return n
}

func (c *Context) IsSet(name string) bool {
	set := false
	if c.set != nil {
		c.set.Visit(func(f *flag.Flag) { set = set || f.Name == name })
	}
	return set
}

func (c *Context) Args() Args {
	if c.set == nil {
		return nil
	}
	return Args(c.set.Args())
}
func (c *Context) NArg() int { return len(c.Args()) }

type ActionFunc func(*Context) error

type Command struct {
	Name, ShortName, Usage, Description string
	Aliases                             []string
	Action                              interface{}
	Flags                               []Flag
	Subcommands                         []Command
}
type Commands []Command

type App struct {
	Name, HelpName, Usage, Version string
	Commands                       []Command
	Flags                          []Flag
	Action                         interface{}
	Compiled                       time.Time
	Writer                         io.Writer
}

func NewApp() *App {
	return &App{Name: os.Args[0], Writer: os.Stdout}
}

type ExitCoder interface {
	error
	ExitCode() int
}
type ExitError struct {
	code int
	msg  string
}

func NewExitError(msg string, code int) *ExitError { return &ExitError{code, msg} }
func (e *ExitError) Error() string                 { return e.msg }
func (e *ExitError) ExitCode() int                 { return e.code }

func HandleExitCoder(err error) {
	if e, ok := err.(ExitCoder); ok {
		if e.Error() != "" {
			fmt.Fprintln(os.Stderr, e.Error())
		}
		os.Exit(e.ExitCode())
	}
}

func call(action interface{}, c *Context) (err error) {
	switch a := action.(type) {
	case ActionFunc:
		err = a(c)
	case func(*Context) error:
		err = a(c)
	case func(*Context):
		a(c)
	}
	if err != nil {
		HandleExitCoder(err)
	}
	return err
}

func (a *App) Run(args []string) error {
	set := flag.NewFlagSet(a.Name, flag.ContinueOnError)
	set.SetOutput(io.Discard)
	for _, f := range a.Flags {
		f.apply(set)
	}
	var rest []string
	if len(args) > 1 {
		rest = args[1:]
	}
	if err := set.Parse(rest); err != nil {
		fmt.Fprintf(a.Writer, "Incorrect Usage: %v\n\n", err)
		return err
	}
	ctx := NewContext(a, set, nil)
	if n := set.Arg(0); n != "" {
		for _, cmd := range a.Commands {
			match := cmd.Name == n || (cmd.ShortName != "" && cmd.ShortName == n)
			for _, al := range cmd.Aliases {
				match = match || al == n
			}
			if match {
				return cmd.run(ctx, set.Args()[1:])
			}
		}
	}
	return call(a.Action, ctx)
}

func (cmd Command) run(parent *Context, args []string) error {
	set := flag.NewFlagSet(cmd.Name, flag.ContinueOnError)
	set.SetOutput(io.Discard)
	for _, f := range cmd.Flags {
		f.apply(set)
	}
	if err := set.Parse(args); err != nil {
		fmt.Fprintf(parent.App.Writer, "Incorrect Usage: %v\n\n", err)
		return err
	}
	c := NewContext(parent.App, set, parent)
	c.Command = cmd
	return call(cmd.Action, c)
}
