package main

import (
	"bytes"
	stdcontext "context"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3/collect"
)

// xmlText is what a text looks like once characters that XML cannot express
// are replaced.
func xmlText(s string) string {
	var buf bytes.Buffer
	xml.EscapeText(&buf, []byte(s))
	d := xml.NewDecoder(bytes.NewReader([]byte("<a>" + buf.String() + "</a>")))
	var out []byte
	for {
		t, err := d.Token()
		if err != nil {
			return string(out)
		}
		if c, ok := t.(xml.CharData); ok {
			out = append(out, c...)
		}
	}
}

// jsCalls reads s as a list of JavaScript calls whose arguments are strings,
// and returns the strings.
func jsCalls(s string) (out []string, err error) {
	i := 0
	space := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
			i++
		}
	}
	str := func() (string, error) {
		if i >= len(s) || s[i] != '\'' && s[i] != '"' {
			return "", fmt.Errorf("no string at %d", i)
		}
		q := s[i]
		i++
		var b []byte
		for {
			if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
				return "", fmt.Errorf("string not ended at %d", i)
			}
			c := s[i]
			i++
			switch {
			case c == q:
				return string(b), nil
			case c != '\\':
				b = append(b, c)
			case i < len(s) && (s[i] == 'u' || s[i] == 'x'):
				n := 4
				if s[i] == 'x' {
					n = 2
				}
				if i+1+n > len(s) {
					return "", fmt.Errorf("bad escape at %d", i)
				}
				v, err := strconv.ParseUint(s[i+1:i+1+n], 16, 32)
				if err != nil {
					return "", err
				}
				b = utf8.AppendRune(b, rune(v))
				i += 1 + n
			case i < len(s):
				e := s[i]
				if j := strings.IndexByte("nrtbfv0", e); j >= 0 {
					e = "\n\r\t\b\f\v\x00"[j]
				}
				b = append(b, e)
				i++
			}
		}
	}
	for {
		space()
		if i >= len(s) {
			return out, nil
		}
		j := i
		for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] == '.' || s[i] == '_') {
			i++
		}
		if i == j || i >= len(s) || s[i] != '(' {
			return nil, fmt.Errorf("no call at %d", j)
		}
		i++
		for {
			space()
			a, err := str()
			if err != nil {
				return nil, err
			}
			out = append(out, a)
			space()
			if i >= len(s) || s[i] != ',' && s[i] != ')' {
				return nil, fmt.Errorf("argument not ended at %d", i)
			}
			i++
			if s[i-1] == ')' {
				break
			}
		}
		space()
		if i < len(s) {
			if s[i] != ';' {
				return nil, fmt.Errorf("call not ended at %d", i)
			}
			i++
		}
	}
}

// checkSVG compares a drawing of finished spans with the spans.
func checkSVG(out []byte, fins []*collect.FinishedSpan) {
	d := xml.NewDecoder(bytes.NewReader(out))
	ids := map[string]int{}
	type drawn struct {
		class, over, text string
		rect              map[string]string
	}
	draw := map[string]*drawn{}
	var cur *drawn
	inText := false
	var width float64
	depth, opened := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			fail("report-syntax", "the SVG is not well-formed: %v\n%.3000s", err, out)
		}
		switch t := t.(type) {
		case xml.StartElement:
			depth++
			opened++
			at := map[string]string{}
			for _, a := range t.Attr {
				at[a.Name.Local] = a.Value
				if strings.HasPrefix(a.Name.Local, "on") {
					if _, err := jsCalls(a.Value); err != nil {
						fail("report-syntax", "the script %s=%q of the SVG is broken: %v", a.Name.Local, a.Value, err)
					}
				}
			}
			id := at["id"]
			if id != "" {
				ids[id]++
			}
			switch {
			case t.Name.Local == "svg":
				width, _ = strconv.ParseFloat(at["width"], 64)
			case strings.HasPrefix(id, "id-"):
				cur = &drawn{class: at["class"], over: at["onmouseover"]}
				draw[id] = cur
			case cur != nil && strings.HasPrefix(id, "rect-"):
				cur.rect = at
			}
			inText = cur != nil && t.Name.Local == "text"
		case xml.CharData:
			if inText {
				cur.text += string(t)
			}
		case xml.EndElement:
			depth--
			inText = false
		}
	}
	if depth != 0 || opened == 0 {
		fail("report-syntax", "the SVG is not complete:\n%.3000s", out)
	}
	for id, n := range ids {
		if n != 1 {
			fail("report-content", "the SVG has the id %q %d times", id, n)
		}
	}
	if len(draw) != len(fins) {
		fail("report-content", "the SVG of %d spans shows %d", len(fins), len(draw))
	}
	if len(fins) == 0 {
		return
	}
	first, last := fins[0].Span.Start(), fins[0].Finish
	same := true
	present := map[int64]bool{}
	for _, s := range fins {
		same = same && s.Finish.Equal(fins[0].Span.Start()) && s.Span.Start().Equal(fins[0].Span.Start())
		if s.Span.Start().Before(first) {
			first = s.Span.Start()
		}
		if s.Finish.After(last) {
			last = s.Finish
		}
		present[s.Span.Id()] = true
	}
	if same {
		hit(prRepZeroDur)
	}
	total := float64(last.Sub(first))
	fills := map[string]string{}
	for _, s := range fins {
		g := draw[fmt.Sprintf("id-%d", s.Span.Id())]
		if g == nil || g.rect == nil {
			fail("report-content", "the SVG lacks span %d", s.Span.Id())
		}
		what := fmt.Sprintf("%s(%s)", s.Span.Func().FullName(), strings.Join(s.Span.Args(), " "))
		dur := s.Finish.Sub(s.Span.Start()).String()
		if x := xmlText(what); !strings.Contains(g.text, x) || !strings.Contains(g.text[len(x):], dur) {
			fail("report-content", "the SVG shows span %d, %q taking %s, as %q", s.Span.Id(), what, dur, g.text)
		}
		if g.over != "" {
			strs, _ := jsCalls(g.over)
			found := false
			for _, x := range strs {
				found = found || strings.Contains(xmlText(x), xmlText(what)) && strings.Contains(x, dur)
			}
			if !found {
				fail("report-content", "the SVG describes span %d, %q taking %s, as %q", s.Span.Id(), what, dur, strs)
			}
		}
		if pid, ok := s.Span.ParentId(); ok && present[pid] && !strings.Contains(g.class+" ", fmt.Sprintf("parent-%d ", pid)) {
			fail("report-content", "the SVG does not link span %d to its parent %d: %q", s.Span.Id(), pid, g.class)
		}
		if total > 0 && width > 0 {
			x, err1 := strconv.ParseFloat(g.rect["x"], 64)
			w, err2 := strconv.ParseFloat(g.rect["width"], 64)
			wantX := float64(s.Span.Start().Sub(first)) / total * width
			wantW := math.Max(1, float64(s.Finish.Sub(s.Span.Start()))/total*width)
			if err1 != nil || err2 != nil || math.Abs(x-wantX) > 1.1 || math.Abs(w-wantW) > 2.1 {
				fail("report-content", "the SVG draws span %d at %v, %v wide, not at %v, %v wide", s.Span.Id(), g.rect["x"], g.rect["width"], wantX, wantW)
			}
		}
		kind := "success"
		switch {
		case s.Panicked:
			kind = "panic"
		case s.Err == context.Canceled || s.Err == stdcontext.Canceled:
			kind = "cancelled"
		case s.Err != nil:
			if _, ok := s.Err.(interface{ WrappedErr() error }); ok {
				continue
			}
			kind = "error"
		}
		if f, ok := fills[kind]; ok && f != g.rect["fill"] {
			fail("report-content", "the SVG draws two spans that ended with a %s in the colours %s and %s", kind, f, g.rect["fill"])
		}
		fills[kind] = g.rect["fill"]
		for _, k := range []string{"success", "error", "cancelled", "panic"} {
			if k != kind && fills[k] == g.rect["fill"] {
				fail("report-content", "the SVG draws a %s and a %s in one colour, %s", k, kind, fills[k])
			}
		}
	}
}
