// Package cli is an offline stand-in for github.com/codegangsta/cli (v1), with
// the part of its interface a small command line program uses.
package cli

import (
	"flag"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
)

type Flag interface {
	apply(*flag.FlagSet)
	GetName() string
}

// each calls f with every name of a flag ("output, o" has two).
func each(name string, f func(string)) {
	for _, n := range strings.Split(name, ",") {
		f(strings.TrimSpace(n))
	}
}

// env is the first value set in the environment for a flag, if any.
func env(names, def string) string {
	for _, n := range strings.Split(names, ",") {
		if v := os.Getenv(strings.TrimSpace(n)); n != "" && v != "" {
			return v
		}
	}
	return def
}

type StringFlag struct {
	Name, Value, Usage, EnvVar string
	Destination                *string
	Hidden                     bool
}

func (f StringFlag) GetName() string { return f.Name }
func (f StringFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(string)
	}
	each(f.Name, func(n string) { s.StringVar(p, n, env(f.EnvVar, f.Value), f.Usage) })
}

type BoolFlag struct {
	Name, Usage, EnvVar string
	Destination         *bool
	Hidden              bool
}

func (f BoolFlag) GetName() string { return f.Name }
func (f BoolFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(bool)
	}
	v, _ := strconv.ParseBool(env(f.EnvVar, "false"))
	each(f.Name, func(n string) { s.BoolVar(p, n, v, f.Usage) })
}

type BoolTFlag struct {
	Name, Usage, EnvVar string
	Destination         *bool
	Hidden              bool
}

func (f BoolTFlag) GetName() string { return f.Name }
func (f BoolTFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(bool)
	}
	v, _ := strconv.ParseBool(env(f.EnvVar, "true"))
	each(f.Name, func(n string) { s.BoolVar(p, n, v, f.Usage) })
}

type IntFlag struct {
	Name, Usage, EnvVar string
	Value               int
	Destination         *int
	Hidden              bool
}

func (f IntFlag) GetName() string { return f.Name }
func (f IntFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(int)
	}
	v, err := strconv.Atoi(env(f.EnvVar, ""))
	if err != nil {
		v = f.Value
	}
	each(f.Name, func(n string) { s.IntVar(p, n, v, f.Usage) })
}

// An error that says with which code the program exits.
type ExitCoder interface {
	error
	ExitCode() int
}

type ExitError struct {
	exitCode int
	message  string
}

func NewExitError(message string, exitCode int) *ExitError { return &ExitError{exitCode, message} }
func (e *ExitError) Error() string                         { return e.message }
func (e *ExitError) ExitCode() int                         { return e.exitCode }

// HandleExitCoder says the error and ends the program if it has an exit code.
func HandleExitCoder(err error) {
	if e, ok := err.(ExitCoder); ok {
		if err.Error() != "" {
			fmt.Fprintln(os.Stderr, err)
		}
		os.Exit(e.ExitCode())
	}
}

type Args []string

func (a Args) Get(n int) string {
	if n < len(a) {
		return a[n]
	}
	return ""
}
func (a Args) First() string { return a.Get(0) }
func (a Args) Present() bool { return len(a) != 0 }
func (a Args) Tail() []string {
	if len(a) > 1 {
		return a[1:]
	}
	return nil
}

type Context struct {
	App     *App
	Command Command
	set     *flag.FlagSet
	parent  *Context
}

func NewContext(app *App, set *flag.FlagSet, parent *Context) *Context {
	return &Context{App: app, set: set, parent: parent}
}

func (c *Context) lookup(name string) *flag.Flag {
	if c.set == nil {
		return nil
	}
	return c.set.Lookup(name)
}

func (c *Context) String(name string) string {
	if f := c.lookup(name); f != nil {
		return f.Value.String()
	}
	return ""
}

func (c *Context) Bool(name string) bool {
	b, _ := strconv.ParseBool(c.String(name))
	return b
}

func (c *Context) Int(name string) int {
	n, _ := strconv.Atoi(c.String(name))
	return n
}

func (c *Context) BoolT(name string) bool { return c.Bool(name) }

// Parent, and the values of the flags given before the command's name.
func (c *Context) Parent() *Context { return c.parent }

func (c *Context) global(name string) *Context {
	p := c
	for p.parent != nil {
		p = p.parent
		if p.lookup(name) != nil {
			return p
		}
	}
	return p
}
func (c *Context) GlobalString(name string) string { return c.global(name).String(name) }
func (c *Context) GlobalBool(name string) bool     { return c.global(name).Bool(name) }
func (c *Context) GlobalInt(name string) int       { return c.global(name).Int(name) }
func (c *Context) GlobalIsSet(name string) bool    { return c.global(name).IsSet(name) }

func (c *Context) NumFlags() int                { return c.set.NFlag() }
func (c *Context) Set(name, value string) error { return c.set.Set(name, value) }
func (c *Context) FlagNames() (names []string) {
	for _, f := range c.Command.Flags {
		names = append(names, strings.TrimSpace(strings.Split(f.GetName(), ",")[0]))
	}
	return
}

func (c *Context) IsSet(name string) bool {
	found := false
	if c.set == nil {
		return false
	}
	all := []Flag{}
	if c.App != nil {
		all = append(all, c.App.Flags...)
	}
	all = append(all, c.Command.Flags...)
	same := map[string]bool{name: true}
	for _, f := range all { // a name stands for all names of its flag
		mine := false
		each(f.GetName(), func(n string) { mine = mine || n == name })
		if mine {
			each(f.GetName(), func(n string) { same[n] = true })
		}
	}
	c.set.Visit(func(f *flag.Flag) { found = found || same[f.Name] })
	return found
}

func (c *Context) Args() Args {
	if c.set == nil {
		return nil
	}
	return Args(c.set.Args())
}

func (c *Context) NArg() int { return len(c.Args()) }

type Author struct{ Name, Email string }

type Command struct {
	Name, ShortName, Usage, UsageText, Description, ArgsUsage, Category string
	Aliases                                                             []string
	Action                                                              interface{}
	Before, After                                                       func(*Context) error
	Flags                                                               []Flag
	Subcommands                                                         []Command
}

type App struct {
	Name, HelpName, Usage, UsageText, Version, Description string
	Commands                                               []Command
	Flags                                                  []Flag
	Action                                                 interface{}
	Before, After                                          func(*Context) error
	Writer, ErrWriter                                      io.Writer
	Author, Email, Copyright                               string
	Authors                                                []Author
	HideHelp, HideVersion, EnableBashCompletion            bool
}

func NewApp() *App {
	return &App{Name: os.Args[0], Writer: os.Stdout}
}

func run(action interface{}, c *Context) error {
	switch a := action.(type) {
	case func(*Context) error:
		return a(c)
	case func(*Context):
		a(c)
	case nil:
	default:
		return fmt.Errorf("invalid action type %T", action)
	}
	return nil
}

// run2 runs an action with what comes before and after it.
func run2(before, after func(*Context) error, action interface{}, c *Context) (err error) {
	if after != nil {
		defer func() {
			if e := after(c); err == nil {
				err = e
			}
		}()
	}
	if before != nil {
		if err := before(c); err != nil {
			return err
		}
	}
	return run(action, c)
}

func (a *App) Run(arguments []string) error {
	err := a.parse(arguments)
	HandleExitCoder(err)
	return err
}

func (a *App) parse(arguments []string) error {
	set := flag.NewFlagSet(a.Name, flag.ContinueOnError)
	for _, f := range a.Flags {
		f.apply(set)
	}
	if err := set.Parse(arguments[1:]); err != nil {
		return err
	}
	ctx := NewContext(a, set, nil)
	if name := ctx.Args().First(); name != "" {
		for _, cmd := range a.Commands {
			match := cmd.Name == name || cmd.ShortName == name && name != ""
			for _, al := range cmd.Aliases {
				match = match || al == name
			}
			if !match {
				continue
			}
			cset := flag.NewFlagSet(name, flag.ContinueOnError)
			for _, f := range cmd.Flags {
				f.apply(cset)
			}
			if err := cset.Parse(ctx.Args()[1:]); err != nil {
				return err
			}
			cctx := NewContext(a, cset, ctx)
			cctx.Command = cmd
			return run2(a.Before, a.After, func(*Context) error {
				return run2(cmd.Before, cmd.After, cmd.Action, cctx)
			}, ctx)
		}
	}
	return run2(a.Before, a.After, a.Action, ctx)
}
