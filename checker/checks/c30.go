package checks

import (
	"fmt"
	"strings"

	"verif/checker/ai"
)

func checkC30(r *Report) {
	r.Rule("abstract interpretation of the decoder with every step of reading failing in turn (opening the package and each part, reading each attachment, each token of each model part): the error returned must not be nil on any path; and of the tokenizer over arbitrary input that ends or fails anywhere: it must report the failure, and the end of the input as an error while elements are open")
	r.c30Package()
	r.c30Tokens()
}

// c30Package lets every step of decoding a package fail.
func (r *Report) c30Package() {
	r.faultRuns(nil, func(label, kind string, happened bool, rd *Reader, outs []ai.Out) {
		r.Assert(happened, "what a package refers to is read", "not read: "+kind, label, "decoding %s: this step is not done at all", label)
		for _, o := range outs {
			bad, known := failed(o)
			if !known {
				r.Fail("undecided: error", label, "decoding %s: it is not known whether %s is nil", label, short(o.Res))
				continue
			}
			r.Assert(bad, "a read failure makes decoding fail", "ignored: "+kind, label, "decoding %s reports success", label)
		}
		r.Count("failing steps", 1)
	})
}

// faultRuns decodes a package with each step failing in turn.
func (r *Report) faultRuns(prepare func(rd *Reader), judge func(label, kind string, happened bool, rd *Reader, outs []ai.Out)) {
	small := func(part string) []Tok {
		return Elem(nsCore, "model", nil,
			Elem(nsCore, "metadata", []Attr{{Local: "name", Val: BytesVal("in " + part)}}, Text(BytesVal("x"))),
			Elem(nsCore, "resources", nil,
				Elem(nsCore, "object", []Attr{{Local: "id", Val: BytesVal("7")}}, Elem(nsCore, "mesh", nil))),
			Elem("http://other", "x", nil, Text(BytesVal("y"))),
			Elem(nsCore, "build", nil, Elem(nsCore, "item", []Attr{{Local: "objectid", Val: BytesVal("7")}})))
	}
	type job struct {
		doc    func(part string) []Tok
		name   string
		order  int
		strict bool
		bytes  bool   // UnmarshalModel
		step   string // the step that fails
		part   string
		tok    int // the token that cannot be read
	}
	var jobs []job
	for _, strict := range []bool{true, false} {
		for order := 0; order < 6; order++ {
			if order > 1 && !r.Thorough() {
				break
			}
			p := testPackage(small, order, false)
			add := func(step string) {
				jobs = append(jobs, job{doc: small, order: order, strict: strict, step: step, name: step})
			}
			add("opc.NewReader")
			for _, f := range p.Files {
				if f.Tokens == nil && (f.Name == "/3D/unreachable.bin" || f.Name == "/t.png") {
					continue
				}
				add("open " + f.Name)
				if f.Tokens == nil {
					add("read " + f.Name)
					continue
				}
				for i := 0; i <= len(f.Tokens); i++ {
					jobs = append(jobs, job{doc: small, order: order, strict: strict, part: f.Name, tok: i, name: fmt.Sprintf("token %d of %s", i, f.Name)})
				}
			}
		}
	}
	for i := 0; i <= len(small("")); i++ {
		jobs = append(jobs, job{doc: small, bytes: true, tok: i, name: fmt.Sprintf("token %d of UnmarshalModel", i)})
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		rd := r.partReader(testPackage(j.doc, j.order, j.order%2 == 0))
		label := fmt.Sprintf("a package where %s fails (order %d, strict: %v)", j.name, j.order, j.strict)
		happened := ""
		if j.step != "" {
			rd.Fails = func(s string) bool {
				if s == j.step {
					happened = s
				}
				return s == j.step
			}
		} else {
			rd.TokenErr = func(c *ai.CallCtx, part string, pos int) ai.Val {
				if part == j.part && pos >= j.tok {
					happened = "token"
					err := ai.ErrAtom(c.St, "err:token")
					c.St.AssumeCond(c.St.Equal(err, ai.Atom("io.EOF", errorT)), false)
					return err
				}
				return nil
			}
		}
		if prepare != nil {
			prepare(rd)
		}
		run := func() ([]ai.Out, error) { return rd.RunPackage(j.strict) }
		if j.bytes {
			rd.Pkg, rd.Script = nil, small("")
			run = rd.Run
		}
		outs, err := run()
		r.engineFns(rd.E)
		r.limits(rd.E, label)
		if err != nil || len(outs) == 0 || len(rd.Panics) > 0 {
			r.Fail("undecided: package", label, "decoding %s: %v, %d outcomes, panics %v", label, err, len(outs), sortedKeys(rd.Panics))
			return
		}
		kind := strings.Fields(j.name)[0]
		judge(label, kind, happened != "", rd, outs)
	})
}

// c30Tokens decodes parts that are given byte by byte and end or fail
// anywhere, through the tokenizer of the library.
func (r *Report) c30Tokens() {
	type job struct {
		doc        int
		cut        int
		fail, with bool
		chunk      int
		part       string
		strict     bool
	}
	docs := partTexts()
	var jobs []job
	for d, doc := range docs {
		n := len(flat(doc))
		for _, part := range []string{rootPart, "/3D/child.model"} {
			for cut := 0; cut <= n; cut++ {
				if part != rootPart && cut%5 != 0 && cut != n && !r.Thorough() {
					continue
				}
				jobs = append(jobs, job{d, cut, false, false, 1, part, cut%2 == 0}, job{d, cut, true, false, 1, part, cut%2 == 0})
				if part == rootPart && cut%4 == 0 || cut >= n-1 || r.Thorough() {
					jobs = append(jobs, job{d, cut, false, true, 4096, part, cut%2 != 0}, job{d, cut, true, true, 4096, part, cut%2 != 0}, job{d, cut, false, false, 7, part, cut%2 != 0}, job{d, cut, true, false, 7, part, cut%2 != 0})
				}
			}
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		all := flat(docs[j.doc])
		src := &byteSource{r: r, parts: map[string][]stretch{rootPart: docs[j.doc]}, cut: map[string]int{rootPart: 1 << 20}, fail: j.fail, with: j.with, chunk: j.chunk, at: j.part}
		src.parts[j.part] = docs[j.doc]
		src.cut[j.part] = j.cut
		read := all[:j.cut]
		if len(read) > 30 {
			read = "…" + read[len(read)-30:]
		}
		how := "ends"
		if j.fail {
			how = "fails"
		}
		label := fmt.Sprintf("the part %s that %s after %q (%d bytes of %d, %d at once, strict: %v)", j.part, how, read, j.cut, len(all), j.chunk, j.strict)
		outs, err := src.run(j.strict)
		if err != nil || len(outs) == 0 || len(src.panics) > 0 {
			r.Fail("undecided: bytes", label, "decoding %s: %v, %d outcomes, panics %v", label, err, len(outs), sortedKeys(src.panics))
			return
		}
		for _, o := range outs {
			bad, known := failed(o)
			if !known {
				r.Fail("undecided: error", label, "decoding %s: it is not known whether %s is nil", label, short(o.Res))
				continue
			}
			switch {
			case j.fail:
				r.Assert(bad, "a part that cannot be read makes decoding fail", "bytes ignored", label, "decoding %s reports success", label)
			case unfinished(all[:j.cut]):
				r.Assert(bad, "a part that is cut off makes decoding fail", "cut off", label, "decoding %s reports success although elements or tags are not closed", label)
			case j.cut == len(all):
				r.Assert(!bad, "complete parts are read", "complete", label, "decoding %s fails: %s", label, short(o.Res))
			}
		}
		r.Count("cut off parts", 1)
	})
}

// flat is the text of a part with a letter for each arbitrary byte.
func flat(l []stretch) string {
	s := ""
	for _, p := range l {
		s += p.text + strings.Repeat("A", p.any)
	}
	return s
}

// unfinished tells whether a text ends inside a tag or before its elements
// are closed.
func unfinished(s string) bool {
	depth := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '<' {
			continue
		}
		var quote byte
		j := i + 1
		for ; j < len(s); j++ {
			if quote == 0 && s[j] == '>' {
				break
			}
			switch {
			case quote != 0 && s[j] == quote:
				quote = 0
			case quote == 0 && (s[j] == '"' || s[j] == '\''):
				quote = s[j]
			}
		}
		if j == len(s) {
			return true
		}
		switch {
		case s[i+1] == '?' || s[j-1] == '/':
		case s[i+1] == '/':
			depth--
		default:
			depth++
		}
		i = j
	}
	return depth > 0
}
