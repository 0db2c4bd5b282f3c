package h

import (
	"errors"
	"mime/multipart"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the upload checks.

type FileSub struct {
	F *multipart.FileHeader
	S string
	L []*multipart.FileHeader
}

type FileArgs struct {
	F *multipart.FileHeader
	G *multipart.FileHeader
	L []*multipart.FileHeader
	O FileSub
	P *FileSub
	Q []FileSub
	S string
}

type FileQ struct{ A string }

var fileGot FileArgs
var fileCalls int

func (FileQ) ResolveM(a FileArgs) string {
	fileGot = a
	fileCalls++
	return "m"
}

type fileState struct{ s *yarql.Schema }

func Setup_file() *fileState { return &fileState{build(FileQ{A: "a"}, NoM{})} }

// files is a source of uploads.
type files struct {
	names []string
	hs    []*multipart.FileHeader
	asked []string
}

func newFiles(names ...string) *files {
	f := &files{}
	for i, n := range names {
		f.names = append(f.names, n)
		f.hs = append(f.hs, &multipart.FileHeader{Filename: "file" + itoa(i), Size: int64(i)})
	}
	return f
}

func (f *files) get(key string) (*multipart.FileHeader, error) {
	f.asked = append(f.asked, key)
	for i, n := range f.names {
		if n == key {
			return f.hs[i], nil
		}
	}
	return nil, errors.New("no such file")
}

func (f *files) find(key string) *multipart.FileHeader {
	for i, n := range f.names {
		if n == key {
			return f.hs[i]
		}
	}
	return nil
}

func (st *fileState) run(f *files, q, vars string) *resp {
	fileGot, fileCalls = FileArgs{}, 0
	o := yarql.ResolveOptions{Variables: vars}
	if f != nil {
		o.GetFormFile = f.get
	}
	return execOpt(st.s, q, o)
}

// filePlace is a place for a file name: the document and variables for it, and what arrived there.
func filePlace(way, place int, name string) (q, vars string, got func() *multipart.FileHeader) {
	pre, post := "", ""
	switch place {
	case 0:
		pre, post = "f:", ""
		got = func() *multipart.FileHeader { return fileGot.F }
	case 1:
		pre, post = "s:\"x\",g:", ",o:{s:\"y\"}"
		got = func() *multipart.FileHeader { return fileGot.G }
	case 2:
		pre, post = "l:[", "]"
		got = func() *multipart.FileHeader {
			if len(fileGot.L) != 1 {
				return nil
			}
			return fileGot.L[0]
		}
	case 3:
		pre, post = "o:{s:\"x\",f:", "}"
		got = func() *multipart.FileHeader { return fileGot.O.F }
	case 4:
		pre, post = "p:{f:", ",l:[]},s:\"z\""
		got = func() *multipart.FileHeader {
			if fileGot.P == nil {
				return nil
			}
			return fileGot.P.F
		}
	default:
		pre, post = "q:[{},{l:[", "]}]"
		got = func() *multipart.FileHeader {
			if len(fileGot.Q) != 2 || len(fileGot.Q[1].L) != 1 {
				return nil
			}
			return fileGot.Q[1].L[0]
		}
	}
	js := string(quote(nil, name))
	switch way {
	case 0:
		return "{m(" + pre + js + post + ")a}", "", got
	case 1:
		return "query($v:File){m(" + pre + "$v" + post + ")a}", "{\"v\":" + js + "}", got
	case 2:
		return "query($v:File=" + js + "){m(" + pre + "$v" + post + ")a}", "", got
	case 3:
		return "query($v:String!){m(" + pre + "$v" + post + ")a}", "{\"v\":" + js + "}", got
	}
	// the whole object or list in a variable
	switch place {
	case 2:
		return "query($v:[File]){m(l:$v)a}", "{\"v\":[" + js + "]}", got
	case 3:
		return "query($v:FileSub){m(o:$v)a}", "{\"v\":{\"s\":\"x\",\"f\":" + js + "}}", got
	case 4:
		return "query($v:FileSub){m(p:$v)a}", "{\"v\":{\"f\":" + js + ",\"l\":[]}}", got
	case 5:
		return "query($v:[FileSub]){m(q:$v)a}", "{\"v\":[{},{\"l\":[" + js + "]}]}", got
	}
	return "", "", nil
}

func plain(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
}

// Run_C27_name: a symbolic name of up to three printable bytes at every place a file can have (argument, list, member of an object, of a listed one), by literal, variable, default or in a variable object, with two uploads of symbolic names: exactly the upload of that name arrives, an unknown name is an error and the resolver does not run.
func Run_C27_name(st *fileState) {
	n := sym.UpTo(0, 2+sym.Tier())
	plain(n)
	n1 := sym.UpToOf(1, 2, "ab")
	f := newFiles(n1, "a"+n1)
	q, vars, got := filePlace(sym.Choose(5), sym.Choose(6), n)
	sym.Assume(q != "")
	r := st.run(f, q, vars)
	sym.Assert(len(f.asked) == 1 && f.asked[0] == n, "another upload is asked for than the one named")
	want := f.find(n)
	if want == nil {
		sym.Assert(r.failed() && fileCalls == 0, "an unknown upload is accepted")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed() && fileCalls == 1, "a known upload is refused")
	sym.Assert(got() == want, "another upload arrives than the one named")
	sym.Assert(r.data.get("m").isStr("m") && r.data.get("a").isStr("a"), "the answer is wrong")
	sym.Cover("known")
}

// Run_C27_none: without a source of uploads every way to name a file is an error and never a crash.
func Run_C27_none(st *fileState) {
	n := sym.UpTo(0, 2)
	plain(n)
	q, vars, _ := filePlace(sym.Choose(5), sym.Choose(6), n)
	sym.Assume(q != "")
	r := st.run(nil, q, vars)
	sym.Assert(r.failed() && fileCalls == 0, "a file is accepted without uploads")
	r = st.run(nil, "{m(s:\"x\")a}", "")
	sym.Assert(!r.failed() && fileGot.F == nil && fileGot.S == "x", "a request without a file is refused")
	sym.Cover("refused")
}

// Run_C27_kinds: values of any other kind for a file are errors, null and absent variables leave it unset, and the upload is never asked for.
func Run_C27_kinds(st *fileState) {
	f := newFiles("a", "1", "")
	v := []string{"1", "true", "1.5", "[]", "{}", "A", "[\"a\"]", "{a:1}", "null"}[sym.Choose(9)]
	place := []string{"f:", "o:{f:", "l:[", "q:[{f:"}[sym.Choose(4)]
	end := map[string]string{"f:": "", "o:{f:": "}", "l:[": "]", "q:[{f:": "}]"}[place]
	var r *resp
	if sym.Choose(2) == 0 {
		r = st.run(f, "{m(s:\"x\","+place+v+end+")a}", "")
	} else {
		if v == "A" {
			sym.Assume(false)
		}
		js := v
		if v == "{a:1}" {
			js = "{\"a\":1}"
		}
		r = st.run(f, "query($v:File){m(s:\"x\","+place+"$v"+end+")a}", "{\"v\":"+js+"}")
	}
	sym.Assert(len(f.asked) == 0, "an upload is asked for without a name")
	if v == "null" {
		sym.Assert(!r.failed() && fileCalls == 1 && fileGot.F == nil && fileGot.O.F == nil && fileGot.S == "x", "null for a file is refused")
		sym.Cover("null")
		return
	}
	sym.Assert(r.failed() && fileCalls == 0, "a value of another kind is accepted for a file")
	sym.Cover("refused")
}

// Run_C27_many: several files in one request, each by its own symbolic name, all arrive at their own place; the next request has none of them.
func Run_C27_many(st *fileState) {
	f := newFiles("a", "b", "ab", "ba", "aa", "bb")
	n := [4]string{sym.StrOf(1, "ab"), sym.StrOf(2, "ab"), sym.StrOf(2, "ab"), sym.StrOf(1, "ab")}
	r := st.run(f, "query($v:File,$w:[File]){m(f:\""+n[0]+"\",l:$w,g:$v,o:{f:\""+n[3]+"\",l:[\""+n[0]+"\",$v]})}",
		"{\"v\":\""+n[1]+"\",\"w\":[\""+n[2]+"\",\""+n[1]+"\"]}")
	sym.Assert(!r.failed() && fileCalls == 1, "known uploads are refused")
	g := fileGot
	sym.Assert(g.F == f.find(n[0]) && g.G == f.find(n[1]) && g.O.F == f.find(n[3]), "an upload arrives at another place")
	sym.Assert(len(g.L) == 2 && g.L[0] == f.find(n[2]) && g.L[1] == f.find(n[1]), "an upload arrives at another place")
	sym.Assert(len(g.O.L) == 2 && g.O.L[0] == f.find(n[0]) && g.O.L[1] == f.find(n[1]), "an upload arrives at another place")
	// the same names at another source
	f2 := newFiles("b", "a", "ba", "ab", "aa")
	r = st.run(f2, "{m(f:\""+n[0]+"\",g:\""+n[1]+"\")}", "")
	if want := f2.find(n[1]); want == nil {
		sym.Assert(r.failed() && fileCalls == 0, "an upload of the request before arrives")
	} else {
		sym.Assert(!r.failed() && fileGot.F == f2.find(n[0]) && fileGot.G == want, "an upload of the request before arrives")
	}
	r = st.run(nil, "{m(s:\"x\")}", "")
	sym.Assert(!r.failed() && fileGot.F == nil && fileGot.G == nil && fileGot.L == nil && fileGot.O.F == nil, "an upload of the request before arrives")
	r = st.run(nil, "{m(f:\""+n[0]+"\")}", "")
	sym.Assert(r.failed() && fileCalls == 0, "the uploads of the request before are used")
	sym.Cover("many")
}

// Run_C27_http: the upload source of the request options is the one used, for single requests and batches, as JSON and as multipart form.
func Run_C27_http(st *fileState) {
	n := sym.StrOf(1, "abc")
	f := newFiles("a", "b")
	opt := &yarql.RequestOptions{}
	src := sym.Choose(2) == 1
	if src {
		opt.GetFormFile = f.get
	} else if sym.Choose(2) == 1 {
		opt = nil
	}
	one := "{\"query\":\"query($v:File){m(f:$v)}\",\"variables\":{\"v\":\"" + n + "\"}}"
	body := one
	batch := sym.Choose(2) == 1
	if batch {
		body = "[{\"query\":\"{a}\"}," + one + "]"
	}
	fileGot, fileCalls = FileArgs{}, 0
	form := func(k string) (string, error) {
		if k == "operations" {
			return body, nil
		}
		return "", errors.New("no field " + k)
	}
	var errs []error
	var res []byte
	if sym.Choose(2) == 0 {
		res, errs = st.s.HandleRequest("POST", noQuery, form, noBody, "multipart/form-data", opt)
	} else {
		res, errs = st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return []byte(body) }, "application/json", opt)
	}
	d, ok := parseJSON(string(res))
	sym.Assert(ok && (!batch || len(d.vals) == 2), "malformed response")
	if !src || f.find(n) == nil {
		sym.Assert(len(errs) == 1 && fileCalls == 0, "an unknown upload is accepted")
		sym.Cover("unknown")
		return
	}
	sym.Assert(len(errs) == 0 && fileCalls == 1 && fileGot.F == f.find(n), "another upload arrives than the one named")
	sym.Cover("known")
}
