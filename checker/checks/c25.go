package checks

import (
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const scaledEvery = 3

// contextError tells whether a result carries the error of the context.
func contextError(st *ai.State, v ai.Val) bool {
	found := false
	Nearest(st, v, func(x ai.Val) bool {
		if y, ok := x.(*ai.Sym); ok && y.ID == "ctx error" {
			found = true
		}
		return found
	})
	return found
}

func checkC25(r *Report) {
	r.Rule("abstract interpretation of the decoders with the context cancelled before every token, facet or line of the input: at most a bounded number of further ones may be read, and the error of the context be returned unless everything was read; package level numbers that say how often the context is looked at are scaled down")
	r.c25STL()
	r.c25Package()
}

func (r *Report) c25STL() {
	var runs []*stlRun
	for _, ascii := range []bool{false, true} {
		for _, n := range []int{1, 9, 14, 40} {
			units := n
			if ascii {
				units = 7*n + 2
			}
			for i := 0; i <= units; i++ {
				if ascii && n > 9 && i%3 != 0 && !r.Thorough() {
					continue
				}
				runs = append(runs, &stlRun{r: r, ascii: ascii, facets: n, cancel: i, at: i, every: scaledEvery})
			}
		}
	}
	parallel(len(runs), func(i int) {
		s := runs[i]
		outs, err := s.run()
		if err != nil {
			r.Fail("undecided: STL", s.String(), "importing %s: %v", s, err)
			return
		}
		r.often(s.scaled)
		if len(s.scaled) == 0 && (s.facets != 9 || s.cancel != 1) {
			return
		}
		bound, total := 2*scaledEvery+2, s.facets
		if len(s.scaled) == 0 { // nothing was scaled: a long file
			s = &stlRun{r: r, ascii: s.ascii, facets: 2600, cancel: 1}
			bound, total = 2500, s.facets
			if outs, err = s.run(); err != nil {
				r.Fail("undecided: STL", s.String(), "importing %s: %v", s, err)
				return
			}
		}
		if s.ascii {
			bound, total = 7*bound, 7*total+2
		}
		for _, o := range outs {
			bad, known := failed(o)
			if !known {
				r.Fail("undecided: error", s.String(), "importing %s: it is not known whether %s is nil", s, short(o.Res))
				continue
			}
			units := ghostInt(o.St, "units")
			r.Assert(units-s.cancel <= bound, "reading stops after the context was cancelled", "STL goes on", s.String(), "importing %s: %d of %d units of input are read after the context was cancelled", s, units-s.cancel, total)
			if !bad {
				r.Assert(units == total, "success means that everything was read", "STL truncated", s.String(), "importing %s succeeds after %d of %d units of input", s, units, total)
				r.Assert(total-s.cancel <= bound, "a cancelled import fails", "STL ignored", s.String(), "importing %s succeeds", s)
				continue
			}
			r.Assert(contextError(o.St, o.Res), "the error is that of the context", "STL error", s.String(), "importing %s fails with %s", s, short(o.Res))
		}
		r.Count("imports", 1)
	})
}

// often bounds the numbers that say how often the context is looked at.
func (r *Report) often(scaled map[string]int64) {
	for _, n := range sortedKeys(scaled) {
		r.Assert(scaled[n] <= 1_000_000, "the context is looked at often", "rarely "+n, n, "%s is %d: the context is not looked at for very long", n, scaled[n])
	}
}

// c25Package checks the readers of the parts of a package.
func (r *Report) c25Package() {
	text := func(s string) ai.Val { return &ai.Bytes{S: s} }
	core := r.W.ConstString("", "Namespace")
	long := func(n int, item func(i int) []Tok) []Tok {
		out := []Tok{{Kind: 's', Space: core, Local: "model"}}
		for i := 0; i < n; i++ {
			out = append(out, item(i)...)
		}
		return append(out, Tok{Kind: 'e', Space: core, Local: "model"})
	}
	attr := func(n, v string) Attr { return Attr{Local: n, Val: text(v)} }
	meta := func(i int) []Tok {
		return []Tok{{Kind: 's', Space: core, Local: "metadata", Attrs: []Attr{attr("name", "Title")}}, {Kind: 'c', Text: text("x")}, {Kind: 'e', Space: core, Local: "metadata"}}
	}
	object := func(i int) []Tok {
		return []Tok{{Kind: 's', Space: core, Local: "resources"}, {Kind: 's', Space: core, Local: "object", Attrs: []Attr{attr("id", strconv.Itoa(i+1))}}, {Kind: 'e', Space: core, Local: "object"}, {Kind: 'e', Space: core, Local: "resources"}}
	}
	other := func(i int) []Tok {
		return []Tok{{Kind: 's', Space: "http://other", Local: "x"}, {Kind: 'c', Text: text("y")}, {Kind: 's', Space: "http://other", Local: "z"}, {Kind: 'e', Space: "http://other", Local: "z"}, {Kind: 'e', Space: "http://other", Local: "x"}}
	}
	type scen struct {
		name  string
		files []AbsFile
	}
	file := func(name string, toks []Tok, rels ...string) AbsFile {
		f := AbsFile{Name: name, ContentType: "application/vnd.ms-package.3dmanufacturing-3dmodel+xml", Tokens: toks}
		for i, t := range rels {
			f.Rels = append(f.Rels, AbsRel{fmt.Sprint("r", i), relModel, t})
		}
		return f
	}
	scens := []scen{
		{"a root part", []AbsFile{file(rootPart, long(8, meta))}},
		{"a long root part", []AbsFile{file(rootPart, long(25, meta))}},
		{"a root part of unknown elements", []AbsFile{file(rootPart, long(4, other))}},
		{"a root part and a child part", []AbsFile{file(rootPart, long(5, meta), childPart), file(childPart, long(5, object))}},
		{"a short root part and a long child part", []AbsFile{file(rootPart, long(1, object), childPart), file(childPart, long(6, object))}},
		{"a root part and two child parts", []AbsFile{file(rootPart, long(3, object), childPart, otherPart), file(childPart, long(3, object)), file(otherPart, long(4, other))}},
	}
	type job struct {
		s      scen
		strict bool
		at     int
	}
	var jobs []job
	for _, s := range scens {
		n := 0
		for _, f := range s.files {
			n += len(f.Tokens) + 1
		}
		for at := 0; at <= n; at++ {
			jobs = append(jobs, job{s, true, at}, job{s, false, at})
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		every := int64(scaledEvery)
		{
			label := fmt.Sprintf("%s (strict: %v), cancelled before token %d", j.s.name, j.strict, j.at)
			rd := r.W.NewReader(nil)
			e := rd.E
			e.PathSensitive, e.MaxParts = true, 256
			e.Peel, e.WidenAfter = 200, 300
			e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
			rd.Pkg = &AbsPkg{Files: j.s.files, Rels: []AbsRel{{"rel0", relModel, rootPart}}}
			cancelled := func(st *ai.State) bool { return ghostInt(st, "units") >= j.at }
			e.OnSelect = onCancelled(cancelled)
			ctxs := &stlRun{r: r, cancel: j.at}
			total := 0
			for _, f := range j.s.files {
				total += len(f.Tokens)
			}
			rd.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
				if c.Fn == nil || ai.FnName(c.Fn) == "context.WithCancel" {
					return ctxs.intercept(c)
				}
				return nil, false
			}
			rd.OnToken = func(c *ai.CallCtx, part string, pos int) {
				ctxs.took(c.St)
				c.St.Ghost["read "+part] = strconv.Itoa(pos)
			}
			st := e.NewState()
			scaled := scale(r.W, e, st, []string{""}, every)
			outs, err := rd.RunPackageIn(st, "M", j.strict)
			r.engineFns(e)
			r.limits(e, label)
			if err != nil || len(outs) == 0 || len(rd.Panics) > 0 {
				r.Fail("undecided: package", label, "decoding %s: %v, panics %v", label, err, sortedKeys(rd.Panics))
				return
			}
			// a check every few tokens in each of the parts
			bound := (2*scaledEvery + 2) * len(j.s.files)
			r.often(scaled)
			if len(scaled) == 0 {
				r.Fail("undecided: how often", "package", "no package level number says how often the context is looked at")
				return
			}
			for _, o := range outs {
				bad, known := failed(o)
				if !known {
					r.Fail("undecided: error", label, "decoding %s: it is not known whether %s is nil", label, short(o.Res))
					continue
				}
				units := ghostInt(o.St, "units")
				r.Assert(units-j.at <= bound, "reading stops after the context was cancelled", "package goes on", label, "decoding %s: %d tokens are read after the context was cancelled", label, units-j.at)
				if !bad {
					for _, f := range j.s.files {
						r.Assert(ghostInt(o.St, "read "+f.Name) == len(f.Tokens), "success means that everything was read", "package truncated", label, "decoding %s succeeds although %d of %d tokens of %s were read", label, ghostInt(o.St, "read "+f.Name), len(f.Tokens), f.Name)
					}
					r.Assert(total-j.at <= bound, "cancelled decoding fails", "package ignored", label, "decoding %s succeeds", label)
					continue
				}
				r.Assert(contextError(o.St, o.Res), "the error is that of the context", "package error", label, "decoding %s fails with %s", label, strings.TrimSpace(short(o.Res)))
			}
		}
		r.Count("packages", 1)
	})
}
