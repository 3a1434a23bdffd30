bug("C05-empty-folder", "C05",
 [("pttbbs/fav.go", """			ret.FolderID++
			f.FolderID = ret.FolderID
			f.ThisFolder = nextFolder
""", """			ret.FolderID++
			if len(nextFolder.FavItems) > 0 {
				f.FolderID = ret.FolderID
			}
			f.ThisFolder = nextFolder
""")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	folder := func(id byte) []byte {
		b := make([]byte, 2+1+49)
		b[0], b[1], b[2], b[3] = byte(FavItemTypeFolder), 1, id, 'f'
		return b
	}
	data := []byte{1, 0, 0, 0, 0, 2}
	data = append(data, folder(7)...)
	data = append(data, folder(9)...)
	data = append(data, 0, 0, 0, 0, 0, 0, 0, 0)
	f, err := UnmarshalFavFile(data)
	if err != nil {
		t.Fatal(err)
	}
	for i, it := range f.Folder.FavItems {
		if got := it.GetFolder().FolderID; int(got) != i+1 {
			t.Fatalf("folder %d has id %d", i+1, got)
		}
	}
}
''', "a favorites file with an empty folder whose stored number is not its position", "an empty folder keeps the number stored in the file instead of getting its position among the folders")

bug("C25-nul-in-password", "C25",
 [("crypt/crypt.go", """		if c == 0 {
			break
		}
""", """		if c == 0 {
			continue
		}
""")],
 "./crypt", '''
package crypt

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a, err := Fcrypt([]byte("ab"), []byte("xy"))
	if err != nil {
		t.Fatal(err)
	}
	b, err := Fcrypt([]byte("ab\\x00cd"), []byte("xy"))
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(a, b) {
		t.Fatalf("a password ends at its NUL: %q %q", a, b)
	}
}
''', "a password with a NUL inside", "the bytes behind the NUL change the hash, the reference implementation stops there")

bug("C26-user-prefix", "C26",
 [("serverlet/route_token.go", "if userid == it.UserID() {", "if userid != \"\" && strings.HasPrefix(it.UserID(), userid) {")],
 "./serverlet", '''
package main

import (
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
)

type demoUser struct {
	bbs.UserRecord
	id string
}

func (u demoUser) UserID() string              { return u.id }
func (u demoUser) VerifyPassword(string) error { return nil }

func TestDemo(t *testing.T) {
	userRecs = []bbs.UserRecord{demoUser{id: "alice2"}, demoUser{id: "bob"}}
	r := httptest.NewRequest("POST", "/v1/token", strings.NewReader(url.Values{"username": {"alice"}, "password": {"x"}}.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder()
	routeToken(w, r)
	if strings.Contains(w.Body.String(), "access_token") {
		t.Fatal("a token for alice with the password of alice2")
	}
}
''', "a user id that is the beginning of another one which comes first", "the password of another user gives a token")

bug("C38-no-authorization", "C38",
 [("serverlet/route_token.go", "	if len(s) < 2 {", "	if a != \"\" && len(s) < 2 {")],
 "./serverlet", '''
package main

import (
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	w := httptest.NewRecorder()
	routeUsers(w, httptest.NewRequest("GET", "/v1/users/nobody/information", nil))
}
''', "a request without the Authorization header", "the handler panics")

bug("C39-last-flag", "C39",
 [("cmd/bbstool/main.go", "			if index+1 >= len(flagArgs) {", "			if index >= len(flagArgs) {")],
 "./cmd/bbstool", '''
package main

import "testing"

func TestDemo(t *testing.T) {
	m := parseArgsToMap([]string{"add_board", "--title", "x", "--board"})
	if m["title"] != "x" || len(m) != 1 {
		t.Fatal(m)
	}
}
''', "a command line that ends with a flag", "the tool panics")

bug("C12-failed-lock", "C12",
 [("pttbbs/pttbbs_write_article_connector.go", """	defer f.Close()
	err = filelock.Lock(f)
	if err != nil {
		// File is locked
		return fmt.Errorf("filelock lock: %w", err)
	}
	defer filelock.Unlock(f)
""", """	err = filelock.Lock(f)
	if err != nil {
		// File is locked
		return fmt.Errorf("filelock lock: %w", err)
	}
	defer f.Close()
	defer filelock.Unlock(f)
""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	c := &Connector{}
	fds := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	before := fds()
	name := t.TempDir() + "/a"
	for i := 0; i < 5; i++ {
		if c.WriteBoardArticleFile(name, []byte("x")) == nil {
			t.Fatal("the lock is held")
		}
	}
	if n := fds(); n > before+1 {
		t.Fatalf("%d open files, %d before", n, before)
	}
}
''', "a file that is locked by somebody else", "the opened file is never closed",
 overlay={"filelock/filelock.go": "filelock.go"}, files={"filelock.go": '''package filelock

import "errors"

type File interface{}

func Lock(f File) error   { return errors.New("locked") }
func RLock(f File) error  { return nil }
func IsLock(f File) bool  { return true }
func Unlock(f File) error { return nil }
'''})

bug("C13-write-before-lock", "C13",
 [("pttbbs/pttbss_append_new_line.go", """	err = filelock.Lock(f)
	if err != nil {
		// File is locked
		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
	}
	defer filelock.Unlock(f)

	_, err = f.Write(content)
	if err != nil {
		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
	}
	return nil
""", """	err = filelock.Lock(f)
	if err != nil {
		// File is locked
		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
	}
	for len(content) > 4096 {
		// let other writers in between
		n, err := f.Write(content[:4096])
		filelock.Unlock(f)
		if err != nil {
			return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
		}
		content = content[n:]
	}
	defer filelock.Unlock(f)

	_, err = f.Write(content)
	if err != nil {
		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
	}
	return nil
""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"

	"github.com/Ptt-official-app/go-bbs/filelock"
)

func TestDemo(t *testing.T) {
	name := t.TempDir() + "/a"
	os.WriteFile(name, nil, 0644)
	c := &Connector{}
	if err := c.AppendBoardArticleFile(name, make([]byte, 9000)); err != nil {
		t.Fatal(err)
	}
	if filelock.Early {
		t.Fatal("the file grew after it was unlocked")
	}
}
''', "an appended text longer than 4096 bytes", "the rest of the text is written without the lock",
 overlay={"filelock/filelock.go": "filelock.go"}, files={"filelock.go": '''package filelock

import "os"

type File interface{}

var (
	Early bool
	size  = int64(-1)
)

func grew(f File) bool {
	st, err := f.(*os.File).Stat()
	return err == nil && size >= 0 && st.Size() != size
}

func Lock(f File) error  { size = -1; return nil }
func RLock(f File) error { return nil }
func IsLock(f File) bool { return true }
func Unlock(f File) error {
	Early = Early || grew(f)
	if st, err := f.(*os.File).Stat(); err == nil {
		size = st.Size()
	}
	return nil
}
'''})

bug("C35-allpost-owner", "C35",
 [("bbs.go", """			if ar.Owner() == userID {
				log.Println("board: ", r.BoardID(), len(recs))
""", """			if strings.EqualFold(ar.Owner(), userID) {
				log.Println("board: ", r.BoardID(), len(recs))
""")],
 ".", '''
package bbs_test

import (
	"os"
	"testing"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	os.MkdirAll(home+"/boards/t/test", 0755)
	b := pttbbs.NewBoardHeader()
	b.SetBoardID("test")
	if err := pttbbs.AppendBoardHeaderFileRecord(home+"/.BRD", b); err != nil {
		t.Fatal(err)
	}
	for _, o := range []string{"Pichu", "pichu"} {
		h := pttbbs.NewFileHeader()
		h.SetOwner(o)
		h.SetTitle("by " + o)
		if err := pttbbs.AppendFileHeaderFileRecord(home+"/boards/t/test/.DIR", h); err != nil {
			t.Fatal(err)
		}
	}
	db, err := bbs.Open("pttbbs", "file://"+home)
	if err != nil {
		t.Fatal(err)
	}
	l, err := db.GetUserArticleRecordFile("pichu")
	if err != nil {
		t.Fatal(err)
	}
	if len(l) != 1 || l[0].Owner() != "pichu" {
		t.Fatal(l)
	}
}
''', "two user ids that differ in the case of a letter", "articles of another user are listed")

bug("C34-gap", "C34",
 [("bbs.go", """			if errors.Is(err, ErrNotUserComment) {
				continue
			}
""", """			if errors.Is(err, ErrNotUserComment) {
				if strings.TrimSpace(l) == "--" {
					floorCnt = 1
				}
				continue
			}
""")],
 ".", '''
package bbs_test

import (
	"os"
	"testing"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	os.MkdirAll(home+"/boards/t/test", 0755)
	text := "body\\n-> alice: one 05/15 01:06\\n--\\n-> bob: two 05/15 01:07\\n"
	if err := os.WriteFile(home+"/boards/t/test/M.1.A.001", []byte(text), 0644); err != nil {
		t.Fatal(err)
	}
	h := pttbbs.NewFileHeader()
	h.SetFilename("M.1.A.001")
	db, err := bbs.Open("pttbbs", "file://"+home)
	if err != nil {
		t.Fatal(err)
	}
	l, err := db.GetBoardArticleCommentRecords("test", h)
	if err != nil {
		t.Fatal(err)
	}
	for i, c := range l {
		if int(c.CommentOrder()) != i+1 {
			t.Fatalf("comment %d has number %d", i+1, c.CommentOrder())
		}
	}
	if len(l) != 2 {
		t.Fatal(l)
	}
}
''', "a signature mark behind the first comment", "the numbering starts again")

bug("C31-cooldown", "C31",
 [("pttbbs/cache.go", "c.posOfHashHead = 4 + c.posOfCooldownTime + c.MaxUsers*4 // + gap_4", "c.posOfHashHead = c.posOfCooldownTime + c.MaxUsers*4 // + gap_4")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	s := MemoryMappingSetting{AlignmentBytes: 4, MaxUsers: 3, IDLen: 12, HashBits: 2, UseCoolDown: true}
	// version, size, ids and gap, next_in_hash, gap, money, gap, cool down, gap, hash, gap, number, loaded
	users := 8 + 13*4 + 3*4 + 4 + 3*4 + 4 + 3*4 + 4 + 4*4 + 4 + 4 + 4
	buf := make([]byte, users+20000)
	buf[users] = 1
	copy(buf[users+PosOfUserInfoUserID:], "alice")
	name := t.TempDir() + "/shm"
	if err := os.WriteFile(name, buf, 0644); err != nil {
		t.Fatal(err)
	}
	c, err := NewCache("file:"+name, &s)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if u := c.UserInfo(0); u.userID != "alice" {
		t.Fatalf("the online user is %q", u.userID)
	}
}
''', "a memory layout with the cool down table", "everything behind the table is read 4 bytes too early")

bug("C10-treasure-nested", "C10",
 [("pttbbs/path.go", """	for _, name := range path {
		subPath += name + "/"
	}
	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
""", """	for i, name := range path {
		if i > 0 && name == path[i-1] {
			continue
		}
		subPath += name + "/"
	}
	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
""")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	p, err := GetBoardTreasuresDirectoryPath("/bbs", "test", []string{"D1", "D1"})
	if err != nil {
		t.Fatal(err)
	}
	if p != "/bbs/man/boards/t/test/D1/D1/.DIR" {
		t.Fatal(p)
	}
}
''', "a treasure directory inside a directory of the same name", "the path is that of the outer directory")

bug("C07-stop-at-blank", "C07",
 [("pttbbs/login_recent.go", """		// fmt.Println(line)

		f, err := NewLoginRecentRecord(line)
""", """		if line == "" {
			break
		}

		f, err := NewLoginRecentRecord(line)
""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	name := t.TempDir() + "/logins.recent"
	os.WriteFile(name, []byte("05/15/2021 01:06:07 1.2.3.4\\n\\n05/16/2021 01:06:07 1.2.3.5\\n"), 0644)
	l, err := OpenLoginRecentFile(name)
	if err == nil && len(l) != 2 {
		t.Fatalf("success with %d of the records", len(l))
	}
}
''', "an empty line in the middle of the file", "the lines behind it are silently not read")

bug("C02-score-not-stored", "C02",
 [("pttbbs/file.go", "	ret[PosOfFileHeaderRecommend] = byte(f.recommend)", "	if f.recommend > 0 {\n		ret[PosOfFileHeaderRecommend] = byte(f.recommend)\n	}")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	f := NewFileHeader()
	f.AddRecommend(-5)
	b, err := f.MarshalToByte()
	if err != nil {
		t.Fatal(err)
	}
	g, err := NewFileHeaderWithByte(b)
	if err != nil {
		t.Fatal(err)
	}
	if g.Recommend() != -5 {
		t.Fatalf("score %d", g.Recommend())
	}
}
''', "an article with a negative score", "the score is stored as 0")

bug("C20-not-implemented", "C20",
 [("bbs.go", """func (db *DB) RemoveBoardRecord(index uint) error {
	return fmt.Errorf("not implement")
""", """func (db *DB) RemoveBoardRecord(index uint) error {
	if _, ok := db.connector.(WriteBoardConnector); ok {
		return nil
	}
	return fmt.Errorf("not implement")
""")],
 ".", '''
package bbs_test

import (
	"os"
	"testing"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	b := pttbbs.NewBoardHeader()
	b.SetBoardID("test")
	if err := pttbbs.AppendBoardHeaderFileRecord(home+"/.BRD", b); err != nil {
		t.Fatal(err)
	}
	db, err := bbs.Open("pttbbs", "file://"+home)
	if err != nil {
		t.Fatal(err)
	}
	err = db.RemoveBoardRecord(0)
	if st, e := os.Stat(home + "/.BRD"); e != nil || err == nil && st.Size() != 0 {
		t.Fatal("success although nothing was removed")
	}
}
''', "a driver that can write boards", "removing a board reports success and removes nothing")

bug("C36-empty-title", "C36",
 [("pttbbs/pttbbs_write_board_connector.go", "	record.SetTitle(title)\n\n	return", "	record.SetTitle(title)\n	if record.Title() == \"\" {\n		// the lists of boards need something to show\n		record.SetTitle(boardID)\n	}\n\n	return")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	c := &Connector{}
	r, err := c.NewBoardRecord(map[string]interface{}{"board_id": "Test", "title": ""})
	if err != nil {
		t.Fatal(err)
	}
	if r.Title() != "" {
		t.Fatalf("title %q", r.Title())
	}
}
''', "an empty title", "the board gets a title that nobody gave it")

bug("C28-failed-form", "C28",
 [("serverlet/route_token.go", "		// TODO: add delay, warning, notify user\n", "		// TODO: add delay, notify user\n		log.Printf(\"login from %s failed: %v\", r.RemoteAddr, r.Form)\n")],
 "./serverlet", '''
package main

import (
	"bytes"
	"log"
	"net/http/httptest"
	"os"
	"strings"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func TestDemo(t *testing.T) {
	rec := make([]byte, 512)
	copy(rec[4:], "SYSOP")
	copy(rec[61:], "bhwvOJtfT1TAI")
	u, err := pttbbs.UnmarshalUserec(rec)
	if err != nil {
		t.Fatal(err)
	}
	userRecs = []bbs.UserRecord{u}
	var b bytes.Buffer
	log.SetOutput(&b)
	defer log.SetOutput(os.Stderr)
	rr := httptest.NewRecorder()
	req := httptest.NewRequest("POST", "/v1/token", strings.NewReader("username=SYSOP&password=almostRight"))
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	routeToken(rr, req)
	if strings.Contains(b.String(), "almostRight") {
		t.Fatal("the password typed was logged:", b.String())
	}
}
''', "a login with a wrong password", "the form of the request, with the password typed, is logged")

bug("C02-vote-limits", "C02",
 [("pttbbs/file.go", "		ret.VoteLimits.Regtime = data[PosOfFileHeaderUnionMulti+2]\n", "		ret.VoteLimits.Regtime = data[PosOfFileHeaderUnionMulti+2] & 0x7f\n")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	rec := make([]byte, 128)
	rec[PosOfFileHeaderFilemode] = FileVote
	rec[PosOfFileHeaderUnionMulti+2] = 200
	h, err := NewFileHeaderWithByte(rec)
	if err != nil {
		t.Fatal(err)
	}
	if h.VoteLimits.Regtime != 200 {
		t.Fatalf("limit %d", h.VoteLimits.Regtime)
	}
}
''', "a vote limit above 127", "the highest bit of the limit is lost")
