package hweb

import (
	"embed"
	"errors"
	htmpl "html/template"
	"io"
	"io/fs"
	"net/http"
	"path/filepath"
	ttmpl "text/template"
	"time"

	"github.com/hound-search/hound/verifh/verifrt"
)

// ---- embedded assets: the templates come from ui/assets of the repository, other assets are short stand-ins ----

type asset struct {
	name string
	data []byte
	pos  int
}

func (a *asset) Stat() (fs.FileInfo, error) { return assetInfo{a}, nil }
func (a *asset) Close() error               { return nil }
func (a *asset) Read(b []byte) (int, error) {
	if a.pos >= len(a.data) {
		return 0, io.EOF
	}
	n := copy(b, a.data[a.pos:])
	a.pos += n
	return n, nil
}

type assetInfo struct{ a *asset }

func (i assetInfo) Name() string       { return filepath.Base(i.a.name) }
func (i assetInfo) Size() int64        { return int64(len(i.a.data)) }
func (i assetInfo) Mode() fs.FileMode  { return 0444 }
func (i assetInfo) ModTime() time.Time { return time.Time{} }
func (i assetInfo) IsDir() bool        { return false }
func (i assetInfo) Sys() interface{}   { return nil }

const embedded = ".build/ui/"

// missing is the name of an asset that does not exist.
var missing string

//gosym:model (embed.FS).Open
func embedOpen(f embed.FS, name string) (fs.File, error) {
	if len(name) <= len(embedded) || name[:len(embedded)] != embedded {
		return nil, fs.ErrNotExist
	}
	n := name[len(embedded):]
	for i := 0; i < len(n); i++ {
		if verifrt.IsSym(int64(n[i])) {
			return nil, fs.ErrNotExist // arbitrary names are not the ones of assets
		}
	}
	if n == missing {
		return nil, fs.ErrNotExist
	}
	var data []byte
	switch {
	case filepath.Ext(n) == ".js":
		if verifrt.HostFile("ui/assets/"+n) == nil {
			return nil, fs.ErrNotExist
		}
		data = []byte("/* " + n + " */")
	default:
		data = verifrt.HostFile("ui/assets/" + n)
		if data == nil {
			return nil, fs.ErrNotExist
		}
	}
	return &asset{name: n, data: data}, nil
}

//gosym:model net/http.ServeContent
func serveContent(w http.ResponseWriter, r *http.Request, name string, mod time.Time, c io.ReadSeeker) {
	io.Copy(w, c)
}

//gosym:model net/http.FileServer
func fileServer(root http.FileSystem) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		http.Error(w, "404 page not found", 404)
	})
}

//gosym:model runtime.Caller
func caller(skip int) (uintptr, string, int, bool) { return 0, "/repo/ui/ui.go", 1, true }

// ---- templates: text with {{ .Key }}, over a map ----

// piece is text, or a key.
type piece struct {
	text, key string
}

type parsed struct{ pieces []piece }

func parse(text string) (*parsed, error) {
	p := &parsed{}
	from := 0
	for i := 0; i+1 < len(text); i++ {
		if text[i] != '{' || text[i+1] != '{' {
			continue
		}
		p.pieces = append(p.pieces, piece{text: text[from:i]})
		j := i + 2
		for j+1 < len(text) && (text[j] != '}' || text[j+1] != '}') {
			j++
		}
		if j+1 >= len(text) {
			return nil, errors.New("template: unclosed action")
		}
		k := text[i+2 : j]
		for len(k) > 0 && k[0] == ' ' {
			k = k[1:]
		}
		for len(k) > 0 && k[len(k)-1] == ' ' {
			k = k[:len(k)-1]
		}
		if len(k) < 2 || k[0] != '.' {
			verifrt.Unsupported("template action " + k)
		}
		for q := 1; q < len(k); q++ {
			c := k[q] | 32
			if c < 'a' || c > 'z' {
				verifrt.Unsupported("template action " + k)
			}
		}
		p.pieces = append(p.pieces, piece{key: k[1:]})
		from = j + 2
		i = j + 1
	}
	p.pieces = append(p.pieces, piece{text: text[from:]})
	return p, nil
}

// execute writes values as they are: escaping depends on nothing but the value.
func (p *parsed) execute(w io.Writer, data interface{}) error {
	m, ok := data.(map[string]interface{})
	if !ok {
		verifrt.Unsupported("template data that is not a map")
	}
	for _, x := range p.pieces {
		if x.key == "" {
			if _, err := w.Write([]byte(x.text)); err != nil {
				return err
			}
			continue
		}
		var s string
		switch v := m[x.key].(type) {
		case string:
			s = v
		case htmpl.HTML:
			s = string(v)
		case nil:
		default:
			verifrt.Unsupported("template value")
		}
		if _, err := w.Write([]byte(s)); err != nil {
			return err
		}
	}
	return nil
}

var htmls = map[*htmpl.Template]*parsed{}
var texts = map[*ttmpl.Template]*parsed{}

//gosym:model html/template.New
func htmlNew(name string) *htmpl.Template { return new(htmpl.Template) }

//gosym:model (*html/template.Template).Parse
func htmlParse(t *htmpl.Template, text string) (*htmpl.Template, error) {
	p, err := parse(text)
	if err != nil {
		return nil, err
	}
	htmls[t] = p
	return t, nil
}

//gosym:model html/template.ParseFiles
func htmlParseFiles(names ...string) (*htmpl.Template, error) {
	s, err := hostText(names)
	if err != nil {
		return nil, err
	}
	return htmlParse(new(htmpl.Template), s)
}

//gosym:model (*html/template.Template).Execute
func htmlExecute(t *htmpl.Template, w io.Writer, data interface{}) error {
	return htmls[t].execute(w, data)
}

//gosym:model text/template.New
func textNew(name string) *ttmpl.Template { return new(ttmpl.Template) }

//gosym:model (*text/template.Template).Parse
func textParse(t *ttmpl.Template, text string) (*ttmpl.Template, error) {
	p, err := parse(text)
	if err != nil {
		return nil, err
	}
	texts[t] = p
	return t, nil
}

//gosym:model text/template.ParseFiles
func textParseFiles(names ...string) (*ttmpl.Template, error) {
	s, err := hostText(names)
	if err != nil {
		return nil, err
	}
	return textParse(new(ttmpl.Template), s)
}

//gosym:model (*text/template.Template).Execute
func textExecute(t *ttmpl.Template, w io.Writer, data interface{}) error {
	return texts[t].execute(w, data)
}

func hostText(names []string) (string, error) {
	if len(names) != 1 {
		verifrt.Unsupported("several template files")
	}
	rel, err := filepath.Rel("/repo", names[0])
	if err != nil {
		return "", err
	}
	b := verifrt.HostFile(rel)
	if b == nil {
		return "", errors.New("open " + names[0] + ": no such file or directory")
	}
	return string(b), nil
}
