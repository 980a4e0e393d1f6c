package app

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"image"
	"os"
	"sort"
	"time"
	"unicode/utf8"

	"gioui.org/f32"
	"gioui.org/io/input"
	"gioui.org/io/key"
	"gioui.org/io/pointer"
	"gioui.org/io/semantic"
	"gioui.org/op"
	"gioui.org/unit"
)

type user struct {
	w   *Window
	r   input.Router
	now time.Time
}

const hung = 20 * time.Second

// frame draws one frame and handles the events queued before it.
func (u *user) frame() {
	u.now = u.now.Add(time.Second)
	done := make(chan struct{})
	e := FrameEvent{Now: u.now, Metric: unit.Metric{PxPerDp: 1, PxPerSp: 1}, Size: image.Pt(900000, 6000), Source: u.r.Source(),
		Frame: func(ops *op.Ops) { u.r.Frame(ops); close(done) }}
	t := time.After(hung)
	select {
	case u.w.events <- e:
	case <-t:
		os.Exit(3)
	}
	select {
	case <-done:
	case <-t:
		os.Exit(3)
	}
}

// settle draws frames until what happened is shown and animations are over.
func (u *user) settle() {
	for i := 0; i < 4; i++ {
		u.frame()
	}
}

type node struct {
	class semantic.ClassOp
	label string
	box   image.Rectangle
	sel   bool
}

// nodes lists what is shown, in the order in which it was drawn.
func (u *user) nodes() (out []node) {
	var walk func(n input.SemanticNode)
	walk = func(n input.SemanticNode) {
		out = append(out, node{n.Desc.Class, n.Desc.Label, n.Desc.Bounds, n.Desc.Selected})
		for _, c := range n.Children {
			walk(c)
		}
	}
	if all := u.r.AppendSemantics(nil); len(all) > 0 {
		walk(all[0])
	}
	return out
}

func (u *user) click(b image.Rectangle) {
	p := f32.Pt(float32(b.Min.X+b.Max.X)/2, float32(b.Min.Y+b.Max.Y)/2)
	at := time.Duration(u.now.Unix()) * time.Second
	u.r.Queue(pointer.Event{Kind: pointer.Move, Time: at, Source: pointer.Mouse, Position: p})
	u.frame()
	u.r.Queue(pointer.Event{Kind: pointer.Press, Time: at, Source: pointer.Mouse, Buttons: pointer.ButtonPrimary, Position: p})
	u.frame()
	u.r.Queue(pointer.Event{Kind: pointer.Release, Time: at, Source: pointer.Mouse, Position: p})
	u.frame()
}

// all lists the nodes of a class.
func (u *user) all(class semantic.ClassOp) (out []node) {
	for _, n := range u.nodes() {
		if n.class == class {
			out = append(out, n)
		}
	}
	return out
}

// fields are the boxes of the text fields from top to bottom.
func (u *user) fields() (out []image.Rectangle) {
	for _, n := range u.all(semantic.Editor) {
		out = append(out, n.box)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Min.Y < out[j].Min.Y })
	return out
}

// read puts the focus into a field and reads its text.
func (u *user) read(f int) string {
	b := u.fields()
	if f >= len(b) {
		return ""
	}
	u.click(b[f])
	u.frame()
	u.frame()
	u.r.Queue(key.SnippetEvent{Start: 0, End: 1 << 20})
	u.frame()
	u.frame()
	return u.r.EditorState().Snippet.Text
}

// write replaces the text of a field.
func (u *user) write(f int, text string) {
	old := u.read(f)
	u.r.Queue(key.EditEvent{Range: key.Range{Start: 0, End: utf8.RuneCountInString(old)}, Text: text})
}

type obj = map[string]any

func hs(s string) string { return hex.EncodeToString([]byte(s)) }

// output is what is shown below the heading OUTPUT: buttons and texts.
func (u *user) output() (buttons, labels []node) {
	in := false
	for _, n := range u.nodes() {
		if n.label == "OUTPUT" {
			in = true
			continue
		}
		if !in {
			continue
		}
		if n.class == semantic.Button {
			buttons = append(buttons, n)
		} else if n.label != "" {
			labels = append(labels, n)
		}
	}
	return buttons, labels
}

// see records everything that is shown.
func (u *user) see() obj {
	texts := make([]string, 5)
	for i := range texts {
		texts[i] = hs(u.read(i))
	}
	buttons, labels := u.output()
	inside := func(n node) bool {
		for _, b := range buttons {
			if n.box.Min.In(b.box) {
				return true
			}
		}
		return false
	}
	tabs, details := []string{}, []string{}
	for _, n := range labels {
		if inside(n) {
			tabs = append(tabs, hs(n.label))
		} else {
			details = append(details, hs(n.label))
		}
	}
	words := 0
	for k, n := range u.all(semantic.RadioButton) {
		if n.sel {
			words = 1000*words + 12 + 3*k
		}
	}
	return obj{"f": texts, "tabs": tabs, "details": details, "words": words}
}

func (u *user) do(e obj) {
	str := func(k string) string { s, _ := e[k].(string); return s }
	num := func(k string) int { n, _ := e[k].(float64); return int(n) }
	switch e["op"] {
	case "open":
	case "edit":
		b, _ := hex.DecodeString(str("t"))
		u.write(num("i"), string(b))
	case "generate":
		if b := u.all(semantic.Button); len(b) > 0 {
			u.click(b[0].box)
		}
	case "words":
		if b, k := u.all(semantic.RadioButton), num("n")/3-4; k < len(b) {
			u.click(b[k].box)
		}
	case "tab", "left", "right":
		b, _ := u.output()
		if len(b) < 2 {
			break
		}
		switch k := num("n"); {
		case e["op"] == "left":
			u.click(b[0].box)
		case e["op"] == "right":
			u.click(b[len(b)-1].box)
		case k < len(b)-2:
			u.click(b[1+k].box)
		}
	default:
		fmt.Println("unknown operation", e["op"])
		os.Exit(4)
	}
	u.settle()
}

func drive(w *Window) {
	plan, err := os.ReadFile(os.Getenv("VERIF_UI_PLAN"))
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	var s struct {
		ID int   `json:"id"`
		Ev []obj `json:"ev"`
	}
	if err := json.Unmarshal(plan, &s); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	out, err := os.Create(os.Getenv("VERIF_UI_TRACE"))
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	u := &user{w: w, now: time.Unix(1700000000, 0)}
	u.settle()
	for _, e := range s.Ev {
		u.do(e)
		for k, v := range u.see() {
			e[k] = v
		}
		e["o"] = "ok"
		line, _ := json.Marshal(e)
		if _, err := out.Write(append(line, '\n')); err != nil {
			os.Exit(4)
		}
	}
	os.Exit(0)
}
