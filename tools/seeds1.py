bug("C15-append-race", "C15",
 [("pttbbs/file.go", """	f, err := os.OpenFile(filename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
""", """	f, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	if _, err := f.Seek(0, io.SeekEnd); err != nil {
		f.Close()
		return err
	}
""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	name := t.TempDir() + "/.DIR"
	var wg sync.WaitGroup
	const n, m = 16, 300
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < m; j++ {
				h := NewFileHeader()
				h.SetTitle("x")
				if err := AppendFileHeaderFileRecord(name, h); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
	st, err := os.Stat(name)
	if err != nil {
		t.Fatal(err)
	}
	if st.Size() != n*m*128 {
		t.Fatalf("%d bytes, want %d", st.Size(), n*m*128)
	}
}
''', "two posters appending to the same index at the same time", "a record appended meanwhile is overwritten")

bug("C16-index-wrap", "C16",
 [("pttbbs/file.go", "_, err = f.Seek(int64(index)*128, os.SEEK_SET)", "_, err = f.Seek(int64(uint32(index)*128), os.SEEK_SET)")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	name := t.TempDir() + "/.DIR"
	f, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	const idx = 1 << 25
	if err := f.Truncate((idx + 1) * 128); err != nil {
		t.Skip("no sparse file of 4 GB here:", err)
	}
	f.Close()
	h := NewFileHeader()
	h.SetFilename("M.1.A.001")
	if err := UpdateFileHeaderFileRecord(name, idx, h); err != nil {
		t.Fatal(err)
	}
	f, err = os.Open(name)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	b := make([]byte, 9)
	if _, err := f.ReadAt(b, 0); err != nil {
		t.Fatal(err)
	}
	if string(b) == "M.1.A.001" {
		t.Fatal("record 0 was overwritten by an update of record", idx)
	}
	if _, err := f.ReadAt(b, idx*128); err != nil || string(b) != "M.1.A.001" {
		t.Fatalf("record %d was not written: %q %v", idx, b, err)
	}
}
''', "an index of more than 2^25 records", "the position wraps around at 4 GB, so the update overwrites an earlier record")

bug("C18-no-excl", "C18",
 [("pttbbs/pttbbs_write_article_connector.go", """	f.Close()
	return

}""", """	f.Close()
	return filename, nil

}"""),
  ("pttbbs/pttbbs_write_article_connector.go", """		path, err := c.GetBoardArticleFilePath(boardID, filename)
		if err != nil {
			return filename, err
		}

		f, err = os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)""", """		path, err := c.GetBoardArticleFilePath(boardID, filename)
		if err != nil {
			return filename, err
		}
		if _, err := os.Stat(path); err == nil {
			continue
		}

		f, err = os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	if err := os.MkdirAll(home+"/boards/t/test", 0755); err != nil {
		t.Fatal(err)
	}
	c := &Connector{home: home}
	// the same name must never be handed out twice; 4096 names a second, so
	// many posters at once meet the window between the look and the creation
	for round := 0; round < 6; round++ {
		var mu sync.Mutex
		seen := map[string]int{}
		var wg sync.WaitGroup
		for i := 0; i < 64; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 60; j++ {
					n, err := c.CreateBoardArticleFilename("test")
					if err != nil {
						t.Error(err)
						return
					}
					mu.Lock()
					seen[n]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for n, k := range seen {
			if k > 1 {
				t.Fatalf("%s was given to %d posters", n, k)
			}
		}
	}
}
''', "two posters who draw the same random name in the same second, between the check and the creation", "both get the same file name")

bug("C19-treasure-root", "C19",
 [("bbs.go", "path, err := db.connector.GetBoardTreasureFilePath(boardID, treasuresID, filename)",
   """if len(treasuresID) == 0 {
		return db.ReadBoardArticleFile(boardID, filename)
	}
	path, err := db.connector.GetBoardTreasureFilePath(boardID, treasuresID, filename)""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	for _, d := range []string{"/boards/t/test", "/man/boards/t/test"} {
		if err := os.MkdirAll(home+d, 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(home+d+"/M.1.A", []byte(d), 0644); err != nil {
			t.Fatal(err)
		}
	}
	db, err := bbs.Open("pttbbs", "file://"+home)
	if err != nil {
		t.Fatal(err)
	}
	b, err := db.ReadBoardTreasureFile("test", nil, "M.1.A")
	if err != nil || string(b) != "/man/boards/t/test" {
		t.Fatalf("%q %v", b, err)
	}
}
''', "a treasure article in the root of the treasure directory", "the board's article of that name is returned")

bug("C14-draft-error", "C14",
 [("pttbbs/draft.go", "return ioutil.WriteFile(filename, draft, 0644)", """if err := ioutil.WriteFile(filename, draft, 0644); err != nil && !os.IsPermission(err) {
		return err
	}
	return nil""")],
 "./pttbbs", '''
package pttbbs

import (
	"os"
	"os/exec"
	"syscall"
	"testing"
)

func TestDemo(t *testing.T) {
	if name := os.Getenv("DEMO_DRAFT"); name != "" {
		if err := (&Connector{}).WriteUserDraft(name, []byte("x")); err == nil {
			t.Fatal("no error for a draft that could not be written")
		}
		return
	}
	d := t.TempDir()
	os.Chmod(d, 0755)
	name := d + "/buf.0"
	if err := os.WriteFile(name, nil, 0400); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("/proc/self/exe", "-test.run=TestDemo")
	cmd.Env = append(os.Environ(), "DEMO_DRAFT="+name)
	if os.Getuid() == 0 {
		// root may write everything
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
}
''', "a draft file the process may not write", "the draft is lost but the operation reports success")

bug("C21-shared-schedule", "C21",
 [("crypt/crypt.go", "ks := desKeySchedule{}\n	desSetKey(&key, &ks)", "desSetKey(&key, &ks)"),
  ("crypt/crypt.go", "out[0], out[1] = body(&ks, Eswap0, Eswap1)", "out[0], out[1] = body(&ks, Eswap0, Eswap1)\n	ks = desKeySchedule{} // the key must not stay in memory"),
  ("crypt/crypt.go", "package crypt\n", "package crypt\n\n// ks is the key schedule\nvar ks desKeySchedule\n")],
 "./crypt", '''
package crypt

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	want, err := Fcrypt([]byte("01234567"), []byte("ab"))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				h, err := Fcrypt([]byte("01234567"), []byte("ab"))
				if err != nil || string(h) != string(want) {
					t.Errorf("%q %v", h, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', "two logins at the same time", "the passwords of concurrent logins are mixed up")

