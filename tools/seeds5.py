bug("C32-highest-score", "C32",
 [("pttbbs/const.go", "	MaxRecommends = 100", "	MaxRecommends = 128")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	f := &FileHeader{}
	for i := 0; i < 300; i++ {
		before := f.Recommend()
		f.AddRecommend(1)
		if n := f.Recommend(); n < before || n > 100 {
			t.Fatalf("%d became %d", before, n)
		}
	}
}
''', "an article that is recommended more than a hundred times", "the score becomes negative")

bug("C11-clean-name", "C11",
 [("pttbbs/pttbbs.go", '''	"os"
	"strings"
)''', '''	"os"
	"path"
	"strings"
)'''),
  ("pttbbs/pttbbs.go", "	return GetUserDraftPath(c.home, userID, draftID)", "	return GetUserDraftPath(c.home, path.Clean(userID), draftID)")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	c := &Connector{}
	c.Open("/nowhere")
	if p, err := c.GetUserDraftPath("SYSOP", "0"); err != nil || p != "/nowhere/home/S/SYSOP/buf.0" {
		t.Fatal(p, err)
	}
	for _, id := range []string{"SYSOP/", "./SYSOP", "pichu/../SYSOP", "", ".", ".."} {
		if p, err := c.GetUserDraftPath(id, "0"); err == nil {
			t.Fatalf("%q leads to %q", id, p)
		}
	}
}
''', "a user id with a path in it", "the draft of another user is read, written or removed")

TOOLHEAD = '''
package main

import (
	"errors"
	"flag"
	"io"
	"os"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
)

var _ = errors.New
var _ bbs.DB

func run(t *testing.T, args ...string) string {
	t.Helper()
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = w
	flag.CommandLine.Parse(args)
	main1(flag.Arg(0))
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	return string(b)
}

func main1(name string) {
	switch name {
	case "show_board_article_list":
		showBoardArticleList()
	case "add_board_article":
		addBoardArticle()
	case "show_board_article":
		showBoardArticle()
	case "show_user_list":
		showuserlist()
	}
}
'''

bug("C46-argument-value", "C46",
 [("cmd/bbstool/main.go", """			newBoardArgs[flagArgs[index][2:]] = flagArgs[index+1]
			index = index + 2""", """			value := flagArgs[index+1]
			if strings.HasPrefix(value, "--") {
				// the value is missing, this is the next flag
				value = ""
				index--
			}
			newBoardArgs[flagArgs[index][2:]] = value
			index = index + 2""")],
 "./cmd/bbstool", '''
package main

import "testing"

func TestDemo(t *testing.T) {
	m := parseArgsToMap([]string{"add_board_article", "--title", "--- notice ---", "--owner", "SYSOP"})
	if m["title"] != "--- notice ---" || m["owner"] != "SYSOP" || len(m) != 2 {
		t.Fatal(m)
	}
}
''', "a value that starts with two dashes", "the value given is not the one used")

bug("C46-content-file", "C46",
 [("cmd/bbstool/articles.go", "	if !contentOk {\n", "	if !contentOk || content == \"\" {\n")],
 "./cmd/bbstool", TOOLHEAD + '''




func TestDemo(t *testing.T) {
	d := t.TempDir()
	for _, p := range []string{"boards/t/test"} {
		if err := os.MkdirAll(d+"/"+p, 0o755); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.WriteFile(d+"/boards/t/test/.DIR", nil, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(d+"/secret", []byte("the text of the file"), 0o644); err != nil {
		t.Fatal(err)
	}
	out := run(t, "-driver", "pttbbs", "-bbshome", d, "add_board_article", "--board", "test", "--owner", "SYSOP",
		"--date", "1/01", "--title", "hello", "--content", "", "--content_file", d+"/secret")
	es, err := os.ReadDir(d + "/boards/t/test")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, e := range es {
		if e.Name() == ".DIR" {
			continue
		}
		n++
		b, _ := os.ReadFile(d + "/boards/t/test/" + e.Name())
		if len(b) != 0 {
			t.Fatalf("stored %q", b)
		}
	}
	if n != 1 {
		t.Fatal(n, out)
	}
}
''', "an empty text and a file are both given", "the text given is not the one stored")

bug("C46-list-stops", "C46",
 [("cmd/bbstool/articles.go", """		if r.Filename() == "" {
			continue
		}""", """		if r.Filename() == "" {
			break
		}""")],
 "./cmd/bbstool", TOOLHEAD + '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.MkdirAll(d+"/boards/t/test", 0o755); err != nil {
		t.Fatal(err)
	}
	rec := func(name string) []byte {
		b := make([]byte, 128)
		copy(b, name)
		return b
	}
	data := append(append(rec("M.1.A.1"), make([]byte, 128)...), rec("M.2.A.2")...)
	if err := os.WriteFile(d+"/boards/t/test/.DIR", data, 0o644); err != nil {
		t.Fatal(err)
	}
	out := run(t, "-driver", "pttbbs", "-bbshome", d, "show_board_article_list", "--board", "test")
	if !contains(out, "M.1.A.1") || !contains(out, "M.2.A.2") {
		t.Fatalf("%q", out)
	}
}

func contains(s, x string) bool {
	for i := 0; i+len(x) <= len(s); i++ {
		if s[i:i+len(x)] == x {
			return true
		}
	}
	return false
}
''', "a list with an unused slot in the middle", "articles after a removed one are not listed")

SRVHEAD = '''
package main

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/Ptt-official-app/go-bbs"
)

var _ = json.Marshal
var _ = url.Values{}
var _ = strings.NewReader

type rec struct {
	bbs.UserRecord
	id string
	n  int
}

func (r rec) UserID() string               { return r.id }
func (r rec) Nickname() string             { return "nick" + r.id }
func (r rec) RealName() string             { return "real" + r.id }
func (r rec) NumLoginDays() int            { return r.n + 1 }
func (r rec) NumPosts() int                { return r.n + 2 }
func (r rec) Money() int                   { return r.n + 3 }
func (r rec) LastLogin() time.Time         { return time.Unix(1600000000, 0) }
func (r rec) LastHost() string             { return "10.0.0.1" }
func (r rec) HashedPassword() string       { return "" }
func (r rec) VerifyPassword(p string) error { return nil }

func get(t *testing.T, method, path string) (int, map[string]interface{}) {
	t.Helper()
	req := httptest.NewRequest(method, path, nil)
	req.Header.Set("Authorization", "bearer x")
	w := httptest.NewRecorder()
	mux := http.NewServeMux()
	mux.HandleFunc("/v1/boards", routeBoards)
	mux.HandleFunc("/v1/users/", routeUsers)
	mux.ServeHTTP(w, req)
	m := map[string]interface{}{}
	json.Unmarshal(w.Body.Bytes(), &m)
	return w.Code, m
}
'''

bug("C47-search-stops", "C47",
 [("serverlet/route_token.go", """		if userid == it.UserID() {
			return it, nil
		}
""", """		if userid == it.UserID() {
			return it, nil
		}
		if it.UserID() == "" {
			// the rest of the file is not used
			break
		}
""")],
 "./serverlet", SRVHEAD + '''
func TestDemo(t *testing.T) {
	userRecs = []bbs.UserRecord{rec{id: "SYSOP"}, rec{}, rec{id: "pichu", n: 5}}
	for _, id := range []string{"SYSOP", "pichu"} {
		code, m := get(t, "GET", "/v1/users/"+id+"/information")
		d, _ := m["data"].(map[string]interface{})
		if code != 200 || d["user_id"] != id {
			t.Fatal(id, code, m)
		}
	}
}
''', "a user behind an unused slot of the password file", "the user is not found")

bug("C47-no-boards", "C47",
 [("serverlet/route_boards.go", "	dataList := []interface{}{}\n", "	var dataList []interface{}\n")],
 "./serverlet", SRVHEAD + '''
func TestDemo(t *testing.T) {
	boardHeader = nil
	code, m := get(t, "GET", "/v1/boards")
	if l, ok := m["data"].([]interface{}); code != 200 || !ok || len(l) != 0 {
		t.Fatal(code, m)
	}
}
''', "a home without boards", "null is answered where clients expect a list")

bug("C47-negative-money", "C47",
 [("serverlet/route_users.go", """		"money":           fmt.Sprintf("%d", userrec.Money()),""", """		"money":           fmt.Sprintf("%d", uint32(userrec.Money())),""")],
 "./serverlet", SRVHEAD + '''
func TestDemo(t *testing.T) {
	userRecs = []bbs.UserRecord{rec{id: "SYSOP", n: -10}}
	_, m := get(t, "GET", "/v1/users/SYSOP/information")
	d, _ := m["data"].(map[string]interface{})
	if d["money"] != "-7" || d["number_of_posts"] != "-8" {
		t.Fatal(d)
	}
}
''', "a user in debt", "the debt is shown as four thousand million")

bug("C16-foreign-article", "C16",
 [("pttbbs/pttbss_append_new_line.go", """		return fmt.Errorf("article should be create with NewArticleRecord or get by ReadArticleRecordFileRecord")""",
  """		// articles of other drivers have no record in this file
		return nil""")],
 "./pttbbs", '''package pttbbs

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
)

type otherArticle struct{ bbs.ArticleRecord }

func (otherArticle) Title() string { return "changed" }

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), ".DIR")
	if err := os.WriteFile(f, make([]byte, 256), 0600); err != nil {
		t.Fatal(err)
	}
	c := &Connector{}
	err := c.UpdateArticleRecordFileRecord(f, 1, otherArticle{})
	b, _ := os.ReadFile(f)
	if err == nil && !bytes.Contains(b, []byte("changed")) {
		t.Fatal("success, but nothing was updated")
	}
}
''', "an article record that another driver made", "success is reported and nothing is stored")

bug("C47-classes", "C47",
 [("serverlet/route_classes.go", """	w.WriteHeader(http.StatusNotImplemented)
""", """	if r.Header.Get("Accept") != "" && r.URL.Path != "/v1/classes/" {
		// nothing a client could show
		return
	}
	w.WriteHeader(http.StatusNotImplemented)
""")],
 "./serverlet", SRVHEAD.replace('import (', 'import (') + '''
func TestDemo(t *testing.T) {
	for _, accept := range []string{"", "application/json"} {
		for _, path := range []string{"/v1/classes/", "/v1/classes/12"} {
			r := httptest.NewRequest("GET", path, nil)
			r.Header.Set("Accept", accept)
			w := httptest.NewRecorder()
			routeClasses(w, r)
			if w.Code < 400 {
				t.Fatal(path, accept, w.Code)
			}
		}
	}
}
''', "a request for one class with an Accept header", "a class that is not offered looks like an empty answer")

bug("C48-lost-bit", "C48",
 [("pttbbs/internal/fnv/fnv.go", "	b[5] = byte(offset >> 16 & 0xFF)\n", "	b[5] = byte(offset >> 16 & 0x7F)\n")],
 "./pttbbs/internal/fnv", '''package fnv

import "testing"

func TestDemo(t *testing.T) {
	for _, start := range []uint32{PttFnv32Init, 0x811c9dc5, 0x7fffffff, 0x41000000, 0x00c00000} {
		want := start
		for _, c := range []byte("PICHU") {
			want = (want ^ uint32(c)) * 16777619
		}
		h := New32aWith(start)
		h.Write([]byte("PICHU"))
		if h.Sum32() != want {
			t.Fatalf("%x: %x instead of %x", start, h.Sum32(), want)
		}
	}
}
''', "a start value with bit 23 set", "names are found in no slot of the hash table")
