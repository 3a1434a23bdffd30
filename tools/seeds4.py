bug("C43-date-in-text", "C43",
 [("user_comment_record.go", "+):.*([0-9]", "+):.*?([0-9]")],
 ".", '''
package bbs

import "testing"

type art struct{ ArticleRecord }

func (art) Filename() string { return "M.1.A.000" }

func TestDemo(t *testing.T) {
	c, err := NewUserCommentRecord(1, "推 lex: since 01/02 03:04 nothing    05/15 01:06", "SYSOP", art{})
	if err != nil {
		t.Fatal(err)
	}
	if c.Comment() != "since 01/02 03:04 nothing" || c.CommentTime().Month() != 5 {
		t.Fatalf("%q at %v", c.Comment(), c.CommentTime())
	}
}
''', "a comment whose text contains a date", "the text is cut at the date in it and the time is that one")

bug("C43-colour-code", "C43",
 [("ansi.go", '(?:\\\\d{1,4}(?:;\\\\d{0,4})*)?', '(?:\\\\d{1,4}(?:;\\\\d{1,4})*)?')],
 ".", '''
package bbs

import "testing"

func TestDemo(t *testing.T) {
	if s := FilterStringANSI("\\x1b[1;mlex\\x1b[m"); s != "lex" {
		t.Fatalf("%q", s)
	}
	if s := FilterStringANSI("\\x1b[1;31mlex\\x1b[m"); s != "lex" {
		t.Fatalf("%q", s)
	}
}
''', "a colour code with an empty parameter at its end", "parts of the code stay in the text")

bug("C44-driver-name", "C44",
 [("bbs.go", "	c, ok := drivers[drivername]", "	c, ok := drivers[strings.ToLower(drivername)]")],
 ".", '''
package bbs

import "testing"

type demoConn struct {
	Connector
	src string
}

func (d *demoConn) Open(s string) error { d.src = s; return nil }

func TestDemo(t *testing.T) {
	d := &demoConn{}
	Register("MyBBS", d)
	if _, err := Open("MyBBS", "/x"); err != nil || d.src != "/x" {
		t.Fatal(err, d.src)
	}
}
''', "a driver registered under a name with capital letters", "the driver is not found")

bug("C44-source", "C44",
 [("bbs.go", "	err := c.Open(dataSourceName)", "	err := c.Open(strings.TrimPrefix(dataSourceName, drivername+\":\"))")],
 ".", '''
package bbs

import "testing"

type demoConn struct {
	Connector
	src string
}

func (d *demoConn) Open(s string) error { d.src = s; return nil }

func TestDemo(t *testing.T) {
	d := &demoConn{}
	Register("mem", d)
	if _, err := Open("mem", "mem:7"); err != nil || d.src != "mem:7" {
		t.Fatal(err, d.src)
	}
}
''', "a data source that begins with the name of the driver", "the driver is given only a part of the data source")

bug("C45-missing-file", "C45",
 [("cache/mmap.go", "os.OpenFile(filePath, os.O_RDWR, 0644)", "os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)")],
 "./cache", '''
package cache

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "none")
	if _, err := NewCache("file:" + p); err == nil {
		t.Fatal("opened a file that is not there")
	}
	if _, err := os.Stat(p); !os.IsNotExist(err) {
		t.Fatal("opening made a file", err)
	}
}
''', "a file that is not there", "opening makes an empty file")

bug("C45-tail", "C45",
 [("cache/mmap.go", "	size := int(stat.Size())", "	size := int(stat.Size()) &^ 3")],
 "./cache", '''
package cache

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "shm")
	if err := os.WriteFile(p, []byte("0123456789"), 0600); err != nil {
		t.Fatal(err)
	}
	c, err := NewCache(p)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if string(c.Bytes()) != "0123456789" {
		t.Fatalf("%q", c.Bytes())
	}
}
''', "a file whose size is no multiple of 4", "the last bytes are not mapped")

bug("C45-key", "C45",
 [("cache/systemvshm.go", "	return CreateKey(key, 0)", "	return CreateKey(key&0xffffff, 0)")],
 "./cache", '''
package cache

import "testing"

func TestDemo(t *testing.T) {
	for _, key := range []int{0x7a7b31, 0x5a7a7b31} {
		m, err := CreateKey(key, 64)
		if err != nil {
			t.Fatal(err)
		}
		defer m.Close()
		defer RemoveKey(key)
		m.Bytes()[0] = byte(key >> 24)
		o, err := OpenKey(key)
		if err != nil {
			t.Fatal(err)
		}
		defer o.Close()
		if o.Bytes()[0] != byte(key>>24) {
			t.Fatalf("key %x opens another segment", key)
		}
	}
}
''', "a key above 24 bits", "another segment is opened, or none")
