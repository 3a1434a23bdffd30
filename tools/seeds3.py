bug("C01-after-2038", "C01",
 [("pttbbs/board.go", "	ret.EndGamble = time.Unix(int64(endGamble), 0)", "	ret.EndGamble = time.Unix(int64(int32(endGamble)), 0)")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	rec := make([]byte, BoardHeaderRecordLength)
	for i := 0; i < 4; i++ {
		rec[PosOfEndGamble+i] = 0xf0
	}
	b, err := UnmarshalBoardHeader(rec)
	if err != nil {
		t.Fatal(err)
	}
	if b.EndGamble.Unix() != 0xf0f0f0f0 {
		t.Fatalf("time %v", b.EndGamble)
	}
}
''', "a time after January 2038", "the time is read as one before 1970")

bug("C03-last-host", "C03",
 [("pttbbs/passwd.go", "	user.lastHost = newStringFormCString(data[PosOfPasswdLastHost : PosOfPasswdLastHost+IPV4Length+1])",
   "	user.lastHost = strings.TrimRight(newStringFormCString(data[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1]), \"0.\")")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	rec := make([]byte, 512)
	copy(rec[PosOfPasswdLastHost:], "10.0.0.20")
	u, err := UnmarshalUserec(rec)
	if err != nil {
		t.Fatal(err)
	}
	if u.LastHost() != "10.0.0.20" {
		t.Fatalf("host %q", u.LastHost())
	}
}
''', "a host whose address ends in 0", "the address loses its last digits")

bug("C04-many-friends", "C04",
 [("pttbbs/userinfo.go", "	cache.NumFriends = int16(binary.LittleEndian.Uint16(data[PosOfUserInfoNumFriends : PosOfUserInfoNumFriends+2]))",
   "	cache.NumFriends = int16(binary.LittleEndian.Uint16(data[PosOfUserInfoNumFriends : PosOfUserInfoNumFriends+2]) % MaxFriend)")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	rec := make([]byte, 3484)
	rec[PosOfUserInfoNumFriends+1] = 1
	if u := UnmarshalUserInfo(rec); u.NumFriends != 256 {
		t.Fatalf("friends %d", u.NumFriends)
	}
}
''', "a user with the highest number of friends", "the number is read as 0")

bug("C06-post-number", "C06",
 [("formosabbs/file.go", "	ret.Postno = int32(binary.LittleEndian.Uint32(data[PosOfFileHeaderPostno : PosOfFileHeaderPostno+4]))",
   "	ret.Postno = int32(binary.LittleEndian.Uint16(data[PosOfFileHeaderPostno : PosOfFileHeaderPostno+4]))")],
 "./formosabbs", '''
package bbs

import "testing"

func TestDemo(t *testing.T) {
	rec := make([]byte, 248)
	rec[PosOfFileHeaderPostno+2] = 1
	h, err := NewFomosaBBSFileHeaderWithByte(rec)
	if err != nil {
		t.Fatal(err)
	}
	if h.Postno != 65536 {
		t.Fatalf("number %d", h.Postno)
	}
}
''', "a post number above 65535", "only the low half of the number is read")

bug("C17-crlf", "C17",
 [("pttbbs/pttbbs.go", """		return nil, fmt.Errorf("pttbbs: readfile error: %v", err)
	}
	return buf, err
""", """		return nil, fmt.Errorf("pttbbs: readfile error: %v", err)
	}
	if n := len(buf); n > 0 && buf[n-1] == 0 {
		// articles are C strings
		buf = buf[:n-1]
	}
	return buf, err
""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	name := t.TempDir() + "/a"
	os.WriteFile(name, []byte("text\\x00"), 0644)
	c := &Connector{}
	b, err := c.ReadBoardArticleFile(name)
	if err != nil || string(b) != "text\\x00" {
		t.Fatalf("%q %v", b, err)
	}
}
''', "an article that ends in a zero byte", "the byte is not returned")

bug("C22-last-home", "C22",
 [("pttbbs/pttbbs.go", "	return GetBoardPath(c.home)\n", "	return boardPath(c.home)\n"),
  ("pttbbs/pttbbs.go", "func (c *Connector) GetBoardRecordsPath() (string, error) {", """var boardPaths = map[int]string{}

// boardPath makes the path of the board list once
func boardPath(home string) (string, error) {
	if p, ok := boardPaths[len(home)]; ok {
		return p, nil
	}
	p, err := GetBoardPath(home)
	if err == nil {
		boardPaths[len(home)] = p
	}
	return p, err
}

func (c *Connector) GetBoardRecordsPath() (string, error) {""")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	a, b := &Connector{}, &Connector{}
	a.Open("/home/a")
	b.Open("/home/b")
	x, _ := a.GetBoardRecordsPath()
	y, _ := b.GetBoardRecordsPath()
	if x == y {
		t.Fatal("both databases read", x)
	}
}
''', "two databases opened in one process whose homes have names of the same length", "the second one reads the boards of the first")

bug("C23-used-up", "C23",
 [("pttbbs/pttbbs_write_board_connector.go", "	record.SetTitle(title)\n\n	return", """	record.SetTitle(title)

	// what is left is not an attribute of a board
	delete(args, "board_id")
	delete(args, "title")
	for k := range args {
		log.Println("NewBoardRecord: unknown attribute", k)
	}

	return"""), ("pttbbs/pttbbs_write_board_connector.go", '	"fmt"\n', '	"fmt"\n	"log"\n')],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	c := &Connector{}
	args := map[string]interface{}{"board_id": "Test", "title": "t"}
	if _, err := c.NewBoardRecord(args); err != nil {
		t.Fatal(err)
	}
	if len(args) != 2 {
		t.Fatalf("arguments %v", args)
	}
}
''', "a caller that uses its map again", "the attributes are removed from the caller's map")

bug("C24-plain-text", "C24",
 [("pttbbs/passwd.go", "	if str != u.password {", "	if str != u.password && (len(u.password) == 13 || password != u.password) {")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	rec := make([]byte, 512)
	copy(rec[PosOfPasswdPassword:], "plain")
	u, err := UnmarshalUserec(rec)
	if err != nil {
		t.Fatal(err)
	}
	if u.VerifyPassword("plain") == nil {
		t.Fatal("accepted although its hash is not the one stored")
	}
}
''', "a record whose stored hash is not 13 characters long", "the stored text itself is accepted as the password")

bug("C29-bad-line", "C29",
 [("pttbbs/login_recent.go", """		f, err := NewLoginRecentRecord(line)
		if err != nil {
			return nil, err
""", """		f, err := NewLoginRecentRecord(line)
		if err != nil {
			log.Panicln(err)
			return nil, err
""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	name := t.TempDir() + "/logins.recent"
	os.WriteFile(name, []byte("broken\\n"), 0644)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	if _, err := OpenLoginRecentFile(name); err == nil {
		t.Fatal("accepted")
	}
}
''', "a login log with a broken line", "the program ends instead of getting an error")

bug("C30-mask", "C30",
 [("pttbbs/board.go", "func (b *BoardHeader) IsNoReply() bool          { return b.Brdattr&0x02000000 != 0 }", "func (b *BoardHeader) IsNoReply() bool          { return b.Brdattr&0x03000000 == 0x02000000 }")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	b := NewBoardHeader()
	for _, x := range []uint32{0, 1 << 24, 1 << 25, 3 << 24, ^uint32(1 << 25), ^uint32(0)} {
		b.Brdattr = x
		if b.IsNoReply() != (x>>25&1 == 1) {
			t.Fatalf("%x", x)
		}
	}
}
''', "a board which is also for adults only", "the flag is reported as not set")

bug("C33-trailing", "C33",
 [("big5.go", "	big5ToUTF8 := traditionalchinese.Big5.NewDecoder()\n", """	big5ToUTF8 := traditionalchinese.Big5.NewDecoder()
	if n := len(input); n > 1 && input[n-1] >= 0x81 && input[n-2] < 0x81 {
		// a character cut in half
		input = input[:n-1]
	}
""")],
 ".", '''
package bbs

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if s := Big5ToUtf8([]byte{'a', 'b', 0xa4}); !strings.HasPrefix(s, "ab") || len(s) == 2 {
		t.Fatalf("%q: the damaged character is dropped", s)
	}
}
''', "text that ends in the middle of a character", "the half character is dropped silently")

bug("C37-host-with-port", "C37",
 [("pttbbs/login_recent.go", "		FromHost:       seg[2],", "		FromHost:       strings.Split(seg[2], \":\")[0],")],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	r, err := NewLoginRecentRecord("05/23/2020 01:02:03 2001:db8::1")
	if err != nil {
		t.Fatal(err)
	}
	if r.FromHost != "2001:db8::1" {
		t.Fatalf("host %q", r.FromHost)
	}
}
''', "a login from an IPv6 address", "only the part up to the first colon is reported")

bug("C27-other-user", "C27",
 [("serverlet/route_users.go", """	token := getTokenFromRequest(r)
	err := checkTokenPermission(token,
		[]permission{PermissionReadUserInformation},
		map[string]string{
			"user_id": userID,
		})
""", """	token := getTokenFromRequest(r)
	owner := r.URL.Query().Get("user_id")
	if owner == "" {
		owner = userID
	}
	err := checkTokenPermission(token,
		[]permission{PermissionReadUserInformation},
		map[string]string{
			"user_id": owner,
		})
""")],
 "./serverlet", '''
package main

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func TestDemo(t *testing.T) {
	rec := make([]byte, 512)
	copy(rec[4:], "SYSOP")
	u, err := pttbbs.UnmarshalUserec(rec)
	if err != nil {
		t.Fatal(err)
	}
	userRecs = []bbs.UserRecord{u}
	rr := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/v1/users/SYSOP/information?user_id=pichu", nil)
	req.Header.Set("Authorization", "Bearer pichu")
	routeUsers(rr, req)
	if rr.Code != 401 || strings.Contains(rr.Body.String(), "SYSOP") {
		t.Fatal(rr.Code, rr.Body.String())
	}
}
''', "a request that names another user in its query", "the permission is checked for that user and not for the one whose data is sent",
 overlay={"serverlet/permissions.go": "permissions.go"}, files={"permissions.go": '''package main

import "errors"

type permission string

const (
	PermissionReadUserInformation permission = "READ_USER_INFORMATION"
	PermissionReadFavorite        permission = "READ_FAVORITE"
)

func checkTokenPermission(token string, permissionID []permission, userInfo map[string]string) error {
	if userInfo["user_id"] != token {
		return errors.New("not granted")
	}
	return nil
}
'''})

bug("C09-other-driver", "C09",
 [("pttbbs/pttbbs_write_board_connector.go", """	b, ok := brd.(*BoardHeader)
	if !ok {
		return fmt.Errorf("brd should be create with NewBoardRecord")

	}
	return AppendBoardHeaderFileRecord(name, b)
""", """	if brd.BoardID() == "" {
		return fmt.Errorf("brd should be create with NewBoardRecord")

	}
	return AppendBoardHeaderFileRecord(name, brd.(*BoardHeader))
""")],
 "./pttbbs", '''
package pttbbs

import (
	"testing"

	"github.com/Ptt-official-app/go-bbs"
)

type other struct{ bbs.BoardRecord }

func (other) BoardID() string { return "other" }

func TestDemo(t *testing.T) {
	c := &Connector{}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	if c.AddBoardRecordFileRecord(t.TempDir()+"/.BRD", other{}) == nil {
		t.Fatal("accepted")
	}
}
''', "a board record made by another driver", "the program panics instead of getting an error")

bug("C08-short-date", "C08",
 [("pttbbs/login_recent.go", '''time.Parse("01/02/2006 15:04:05", seg[0]+" "+seg[1])''', '''time.Parse("01/02/2006 15:04:05", line[:19])''')],
 "./pttbbs", '''
package pttbbs

import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	if _, err := NewLoginRecentRecord("a b c"); err == nil {
		t.Fatal("accepted")
	}
}
''', "a line with three short parts", "the line is cut behind its end and the program panics")
