package hmain

import (
	"io/ioutil"
	"net/http"
	"os"
	"strings"

	"github.com/hound-search/hound/verifh/cmd_hound"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

func reply(status int, text string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(text)), ContentLength: -1}
}

const answer = `{"Results":{"r":{"Matches":[{"Filename":"f","Matches":[{"Line":"an Apple","LineNumber":7,"Before":["b"],"After":["c"]}]}],"FilesWithMatch":1,"Revision":"0"}}}`

// C29Main runs the client.
func C29Main() {
	verifrt.Opt("preempt", 0)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	on := func(n string) bool { return verifrt.Choose(n, 2) == 1 }
	args := []string{"hound"}
	want := map[string]string{"q": "apple", "repos": "*", "files": "", "ctx": "2", "i": "false", "stats": "false"}
	host, token := "localhost:6080", ""
	grep, icase, bad := false, false, false
	switch part := verifrt.Choose("part", 4); part {
	case 0: // flags
		if on("repos") {
			args, want["repos"] = append(args, "-repos", "a,b"), "a,b"
		}
		if on("files") {
			args, want["files"] = append(args, "--files=x y"), "x y"
		}
		if on("context") {
			args, want["ctx"] = append(args, "-context", "5"), "5"
		}
		if icase = on("i"); icase {
			args, want["i"] = append(args, "-ignore-case"), "true"
		}
		if on("stats") {
			args, want["stats"] = append(args, "-show-stats"), "true"
		}
		if on("host") {
			args, host = append(args, "-host", "h:1"), "h:1"
		}
		if grep = on("grep"); grep {
			args = append(args, "-like-grep")
		}
	case 1: // configuration files
		for i, f := range []string{"/etc/hound.conf", "/home/u/.hound"} {
			n := string([]byte{byte('1' + i)})
			switch verifrt.Choose("conf", 4) {
			case 1:
				hx.Put(f, []byte(`{"host":"h`+n+`:80"}`))
				host = "h" + n + ":80"
			case 2:
				hx.Put(f, []byte(`{"http-headers":{"X-Token":"t`+n+`"}}`))
				token = "t" + n
			case 3:
				hx.Put(f, []byte(`{"host":`))
				bad = true
			}
		}
	case 2: // patterns
		p := []string{"a|b", "a b+", "(", "[z-a]", "é"}[verifrt.Choose("pattern", 5)]
		bad = p == "(" || p == "[z-a]"
		want["q"] = p
	}
	args = append(args, want["q"])
	wrong := 0
	if want["q"] == "apple" {
		wrong = verifrt.Choose("args", 3)
		switch wrong {
		case 1:
			args = args[:len(args)-1]
		case 2:
			args = append(args, "more")
		}
	}
	fail := 0
	if wrong == 0 && !bad {
		fail = verifrt.Choose("fail", 4)
	}
	os.Args = args
	searches, lists := 0, 0
	vmodel.HTTPDo = func(r *http.Request) (*http.Response, error) {
		verifrt.Assert(r.Method == "GET" && r.URL.Host == host && r.Header.Get("X-Token") == token, "a request to another server or without the configured headers")
		if r.URL.Path == "/api/v1/search" {
			searches++
			verifrt.Assert(r.ParseForm() == nil, "the request cannot be understood")
			for k, v := range want {
				verifrt.Assert(r.FormValue(k) == v, "another search than the one on the command line: "+k+"="+r.FormValue(k))
			}
			switch fail {
			case 1:
				return reply(503, "Hound is not ready.\n"), nil
			case 2:
				return reply(200, `{"Error":"bad"}`), nil
			}
			return reply(200, answer), nil
		}
		verifrt.Assert(r.URL.Path == "/api/v1/repos", "a request for something else")
		lists++
		if fail == 3 {
			return reply(500, `{}`), nil
		}
		return reply(200, `{"r":{"url":"u","display-name":"Name"}}`), nil
	}
	vmodel.ExitOK = true
	out, read := hx.Output(false)
	os.Stdout = out
	died := run()
	got := string(read())
	if wrong != 0 {
		verifrt.Assert(searches == 0 && lists == 0 && got == "", "a search without exactly one pattern")
		verifrt.Reach("usage")
		return
	}
	if bad || fail != 0 {
		verifrt.Assert(died, "the client succeeds in spite of a failure")
		verifrt.Assert(!bad || searches == 0, "a search in spite of a failure")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(!died, "the client fails")
	verifrt.Assert(searches == 1 && lists == 1, "the wrong number of requests")
	exp := "Name\nf\n6-     b\n7:     an Apple\n8-     c\n--\n\n"
	// the presentation like grep's does not exist yet
	verifrt.Assert(grep || got == exp, "the results of the server are not shown")
	verifrt.Reach("shown")
}

func run() (died bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case vmodel.ExitSentinel:
			died = r.Code != 0
		default:
			died = true
		}
	}()
	cmd_hound.Main()
	return false
}

type recorder struct {
	h      http.Header
	status int
	b      []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(s int) {
	if r.status == 0 {
		r.status = s
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.b = append(r.b, b...)
	return len(b), nil
}

// C29Both runs the client against the server.
func C29Both() {
	d := newDaemon("ab", "")
	verifrt.Opt("onesched", 1)
	line := verifrt.String("line", 1+verifrt.Tier())
	for i := 0; i < len(line); i++ {
		verifrt.Assume(verifrt.And(line[i] != '\n', verifrt.And(line[i] != 0, line[i] < 0x80)))
	}
	lines := []string{"one", line, "Two two", "", "three", "TWO", "y", "two"}
	for _, l := range lines {
		origins["u:a"].text += l + "\n"
	}
	origins["u:b"].text = "nothing\n"
	go d.run()
	verifrt.WaitIdle()
	verifrt.Assert(d.died == nil, "the server does not start")
	which := verifrt.Choose("pattern", 3)
	pat := []string{"two", "^.?$", "thr|nothing"}[which]
	ctx, icase, files := 1, false, false
	if which < 2 {
		ctx = verifrt.Choose("ctx", 3)
	} else {
		files = verifrt.Choose("files", 2) == 1
	}
	if which == 0 {
		icase = verifrt.Choose("i", 2) == 1
	}
	vmodel.HTTPDo = func(r *http.Request) (*http.Response, error) {
		w := &recorder{h: http.Header{}}
		r.RequestURI = r.URL.Path
		d.handler.ServeHTTP(w, r)
		w.WriteHeader(200)
		return reply(w.status, string(w.b)), nil
	}
	os.Args = []string{"hound", "-context", string([]byte{byte('0' + ctx)})}
	if icase {
		os.Args = append(os.Args, "-ignore-case")
	}
	if files {
		os.Args = append(os.Args, "-files", "^g")
	}
	os.Args = append(os.Args, "-repos", "a,c", pat)
	vmodel.ExitOK = true
	out, read := hx.Output(false)
	os.Stdout = out
	verifrt.Assert(!run(), "the client fails")
	match := func(l string) bool {
		switch pat {
		case "two":
			return l == "two" || l == "Two two" || icase && l == "TWO"
		case "^.?$":
			return len(l) <= 1
		}
		return l == "three"
	}
	begins, prev := map[int]bool{}, -9
	for i, l := range lines {
		if match(l) {
			if i-ctx > prev+ctx {
				begins[i-ctx] = true
			}
			prev = i
		}
	}
	exp := ""
	for i, l := range lines {
		m, shown := match(l), false
		for k := i - ctx; k <= i+ctx; k++ {
			shown = shown || k >= 0 && k < len(lines) && match(lines[k])
		}
		if !shown || files {
			continue
		}
		if exp == "" {
			exp = "a\nf.txt\n"
		} else if ctx > 0 && begins[i] {
			exp += "--\n"
		}
		if m {
			exp += string([]byte{byte('1' + i)}) + ":     " + l + "\n"
		} else {
			exp += string([]byte{byte('1' + i)}) + "-     " + l + "\n"
		}
	}
	if exp != "" {
		if ctx > 0 {
			exp += "--\n"
		}
		exp += "\n"
	}
	got := string(read())
	verifrt.Log(got)
	verifrt.Log(exp)
	verifrt.Assert(verifrt.EqStr(got, exp), "the client does not show the lines that match")
	verifrt.Reach("shown")
}
