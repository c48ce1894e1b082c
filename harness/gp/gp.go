// Package gp reaches into go-prompt (an unmodified dependency), so that its
// logic can be run without a controlling terminal and step by step.
package gp

import (
	"reflect"
	"unsafe"

	prompt "github.com/c-bata/go-prompt"
)

func field[T any](obj any, name string) *T {
	f := reflect.ValueOf(obj).Elem().FieldByName(name)
	return (*T)(unsafe.Pointer(f.UnsafeAddr()))
}

// New is prompt.New, except that it doesn't open /dev/tty.
func New(completer prompt.Completer, opts ...prompt.Option) *prompt.Prompt {
	r := &prompt.Render{}
	*field[func() (string, bool)](r, "livePrefixCallback") = func() (string, bool) { return "", false }
	for n, col := range map[string]prompt.Color{
		"prefixTextColor": prompt.Blue, "previewSuggestionTextColor": prompt.Green,
		"suggestionTextColor": prompt.White, "suggestionBGColor": prompt.Cyan,
		"selectedSuggestionTextColor": prompt.Black, "selectedSuggestionBGColor": prompt.Turquoise,
		"descriptionTextColor": prompt.Black, "descriptionBGColor": prompt.Turquoise,
		"selectedDescriptionTextColor": prompt.White, "selectedDescriptionBGColor": prompt.Cyan,
		"scrollbarThumbColor": prompt.DarkGray, "scrollbarBGColor": prompt.Cyan,
	} {
		*field[prompt.Color](r, n) = col
	}
	*field[string](r, "prefix") = "> "
	p := &prompt.Prompt{}
	*field[*prompt.Render](p, "renderer") = r
	*field[*prompt.Buffer](p, "buf") = prompt.NewBuffer()
	*field[*prompt.History](p, "history") = prompt.NewHistory()
	*field[*prompt.CompletionManager](p, "completion") = prompt.NewCompletionManager(completer, 6)
	*field[prompt.KeyBindMode](p, "keyBindMode") = prompt.EmacsKeyBind
	for _, o := range opts {
		if err := o(p); err != nil {
			panic(err)
		}
	}
	return p
}

// Parser is where the prompt reads from.
func Parser(p *prompt.Prompt) prompt.ConsoleParser { return *field[prompt.ConsoleParser](p, "in") }

// SetParser changes where the prompt reads from.
func SetParser(p *prompt.Prompt, in prompt.ConsoleParser) {
	*field[prompt.ConsoleParser](p, "in") = in
}

// Writer is where the prompt writes to.
func Writer(p *prompt.Prompt) prompt.ConsoleWriter {
	return *field[prompt.ConsoleWriter](*field[*prompt.Render](p, "renderer"), "out")
}

// Drain takes what a VT100 writer has written.
func Drain(w *prompt.VT100Writer) []byte {
	b := field[[]byte](w, "buffer")
	res := append([]byte(nil), *b...)
	*b = (*b)[:0]
	return res
}

//go:linkname feed github.com/c-bata/go-prompt.(*Prompt).feed
func feed(p *prompt.Prompt, b []byte) (bool, *prompt.Exec)

// Start begins an input line (the beginning of prompt.Input).
func Start(p *prompt.Prompt, size *prompt.WinSize) {
	r := *field[*prompt.Render](p, "renderer")
	r.Setup()
	r.UpdateWinSize(size)
	r.Render(*field[*prompt.Buffer](p, "buf"), *field[*prompt.CompletionManager](p, "completion"))
}

// Feed hands one chunk of input to the prompt, as prompt.Input does; done
// tells if the line is complete.
func Feed(p *prompt.Prompt, b []byte) (line string, done bool) {
	r := *field[*prompt.Render](p, "renderer")
	exit, ex := feed(p, b)
	buf := *field[*prompt.Buffer](p, "buf")
	comp := *field[*prompt.CompletionManager](p, "completion")
	switch {
	case exit:
		r.BreakLine(buf)
		r.TearDown()
		return "", true
	case ex != nil:
		r.TearDown()
		return *field[string](ex, "input"), true
	}
	comp.Update(*buf.Document())
	r.Render(buf, comp)
	return "", false
}

// Text is the text entered so far.
func Text(p *prompt.Prompt) string { return (*field[*prompt.Buffer](p, "buf")).Text() }
