// Package app stands in for gioui.org/app where there is no display: the window's frames are driven by a plan, with
// the input events a user's mouse and keyboard would cause, and what the window shows is recorded.  Everything else
// of gioui.org is as it is.
package app

import (
	"image"
	"time"

	"gioui.org/io/event"
	"gioui.org/io/input"
	"gioui.org/layout"
	"gioui.org/op"
	"gioui.org/unit"
)

type DestroyEvent struct{ Err error }

func (DestroyEvent) ImplementsEvent() {}

type Insets struct{ Top, Bottom, Left, Right unit.Dp }

type FrameEvent struct {
	Now    time.Time
	Metric unit.Metric
	Size   image.Point
	Insets Insets
	Frame  func(frame *op.Ops)
	Source input.Source
}

func (FrameEvent) ImplementsEvent() {}

func NewContext(ops *op.Ops, e FrameEvent) layout.Context {
	ops.Reset()
	return layout.Context{Ops: ops, Now: e.Now, Source: e.Source, Metric: e.Metric, Constraints: layout.Exact(e.Size)}
}

type Option func(unit.Metric, *Config)
type Config struct{ Title string }

func Title(t string) Option       { return func(_ unit.Metric, c *Config) { c.Title = t } }
func Size(w, h unit.Dp) Option    { return func(unit.Metric, *Config) {} }
func MinSize(w, h unit.Dp) Option { return func(unit.Metric, *Config) {} }
func MaxSize(w, h unit.Dp) Option { return func(unit.Metric, *Config) {} }

type Window struct{ events chan event.Event }

var windows = make(chan *Window, 1)

func NewWindow(...Option) *Window {
	w := &Window{events: make(chan event.Event)}
	windows <- w
	return w
}

func (w *Window) NextEvent() event.Event { return <-w.events }
func (w *Window) Invalidate()            {}
func (w *Window) Option(...Option)       {}

// Main executes the plan.
func Main() { drive(<-windows) }
