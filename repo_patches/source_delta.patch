From d22342f81f893f43240157992ef487f7df902a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 01/40] fix: userinfo ChcTie overlapped FiveTie and shifted
 every later field

---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..ea25cc7 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -63,7 +63,7 @@ const (
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
-- 
2.43.0


From de8f49b852bd7f1d4448fd0bc88ce89c23e52044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 02/40] fix: Userec.MarshalBinary dropped Role and the last
 byte of Justify

---
 pttbbs/passwd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..ed53623 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -322,7 +322,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdEmail:PosOfPasswdEmail+EmailSize], utf8ToBig5UAOString(u.Email))
 	copy(ret[PosOfPasswdAddress:PosOfPasswdAddress+AddressSize], utf8ToBig5UAOString(u.Address))
-	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength], utf8ToBig5UAOString(u.Justify))
+	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength+1], utf8ToBig5UAOString(u.Justify))
 
 	if u.Over18 {
 		ret[PosOfPasswdOver18] = 1
@@ -342,7 +342,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdExMailBox:PosOfPasswdExMailBox+4], u.ExMailBox)
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
-
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
-- 
2.43.0


From ee6fb25e4df4611d5e116cc7d252309df42873b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 03/40] fix: encoding an article record dropped its marks and
 money, so updating a record erased them

---
 pttbbs/file.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..22d9451 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -238,7 +238,21 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	// The union holds vote limits, the uid of an anonymous author or money,
+	// depending on file mode.
+	union := ret[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]
+	switch {
+	case f.IsVotePost():
+		union[0] = f.VoteLimits.Posts
+		union[1] = f.VoteLimits.Logins
+		union[2] = f.VoteLimits.Regtime
+		union[3] = f.VoteLimits.Badpost
+	case f.Filemode&FileAnonymous != 0:
+		binary.LittleEndian.PutUint32(union, uint32(f.AnnoUID))
+	default:
+		binary.LittleEndian.PutUint32(union, uint32(f.money))
+	}
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From ad9eb838c5148e7644d76f972ca6b6e99f888144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 04/40] fix: article, board and FormosaBBS text fields kept
 stale bytes after the terminating NUL

---
 formosabbs/file.go | 7 +++----
 pttbbs/board.go    | 2 +-
 pttbbs/file.go     | 9 ++++-----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..907083d 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -3,7 +3,6 @@ package bbs
 import (
 	"github.com/Ptt-official-app/go-bbs"
 
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -73,16 +72,16 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.Filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+44], "\x00"))
+	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	// log.Println("modifiedInt:", modifiedInt, PosOfModified)
 	ret.Modified = time.Unix(int64(modifiedInt), 0)
 
 	// ret.Recommend = int8(data[PosOfRecommend])
-	ret.Owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+72], "\x00"))
+	ret.Owner = bbs.CstrToString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+72])
 	// ret.Date = string(bytes.Trim(data[PosOfDate:PosOfDate+6], "\x00"))
-	ret.Title = bbs.Big5ToUtf8(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+67], "\x00"))
+	ret.Title = bbs.Big5ToUtf8(bbs.CstrToBytes(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+67]))
 	// // log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	// ret.Money = int(binary.LittleEndian.Uint32(data[PosOfUnionMulti : PosOfUnionMulti+4]))
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..4226fda 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -275,7 +275,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
 	ret.title = big5uaoToUTF8String(bytes.Split(data[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], []byte("\x00"))[0]) // Be careful about C-string end char \0
-	ret.bm = string(bytes.Trim(data[PosOfBM:PosOfBM+IDLength*3+3], "\x00"))
+	ret.bm = newStringFormCString(data[PosOfBM : PosOfBM+IDLength*3+3])
 	ret.Brdattr = binary.LittleEndian.Uint32(data[PosOfBrdAttr : PosOfBrdAttr+4])
 	ret.VoteLimitPosts = uint8(data[PosOfVoteLimitPosts])
 	ret.VoteLimitLogins = uint8(data[PosOfVoteLimitLogins])
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 22d9451..2292b50 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -27,7 +27,6 @@
 package pttbbs
 
 import (
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -199,15 +198,15 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+FileNameLength], "\x00"))
+	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	ret.modified = time.Unix(int64(modifiedInt), 0)
 
 	ret.recommend = int8(data[PosOfFileHeaderRecommend])
-	ret.owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], "\x00"))
-	ret.date = string(bytes.Trim(data[PosOfFileHeaderDate:PosOfFileHeaderDate+6], "\x00"))
-	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
+	ret.owner = newStringFormCString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+IDLength+2])
+	ret.date = newStringFormCString(data[PosOfFileHeaderDate : PosOfFileHeaderDate+6])
+	ret.title = newStringFormBig5UAOCString(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+TitleLength+1])
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	ret.money = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
-- 
2.43.0


From 4594623914773874a3505c6c20fc56935f9cec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 05/40] fix: board post types were decoded as trimmed text,
 losing empty leading slots and mask bits above 0x7f

---
 pttbbs/board.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4226fda..77a98da 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -302,8 +302,8 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	ret.PostExpire = int32(binary.LittleEndian.Uint32(data[PosOfPostExpire : PosOfPostExpire+4]))
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
-	ret.PostType = big5uaoToUTF8String(bytes.Trim(data[PosOfPostType:PosOfPostType+33], "\x00"))
-	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
+	ret.PostType = big5uaoToUTF8String(bytes.TrimRight(data[PosOfPostType:PosOfPostType+33], "\x00")) // 8 slots of 4 bytes, the first ones may be empty
+	ret.PostTypeF = string(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))                 // bit mask, not text
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
 	ret.VoteLimitBadPost = uint8(data[PosOfVoteLimitBadPost])
@@ -350,7 +350,7 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
 	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
-	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
+	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
-- 
2.43.0


From d1320d15ce7e1efb984e40795bc73d3fc6cc0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 06/40] fix: unset times were stored as 2042-07-14 instead of 0

---
 pttbbs/board.go    | 10 +++++-----
 pttbbs/encoding.go | 10 ++++++++++
 pttbbs/fav.go      |  2 +-
 pttbbs/file.go     |  2 +-
 pttbbs/passwd.go   | 16 ++++++++--------
 pttbbs/userinfo.go |  4 ++--
 6 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 77a98da..2580b1d 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -324,13 +324,13 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
 	copy(ret[PosOfChessCountry:PosOfChessCountry+1], b.ChessCountry)
-	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], uint32(b.BUpdate.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], timeToUint32(b.BUpdate))
 	ret[PosOfPostLimitPosts] = b.PostLimitPosts
 	ret[PosOfPostLimitLogins] = b.PostLimitLogins
 	ret[PosOfBVote] = b.BVote
-	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], uint32(b.VTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], timeToUint32(b.VTime))
 	binary.LittleEndian.PutUint32(ret[PosOfLevel:PosOfLevel+4], b.Level)
-	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], uint32(b.PermReload.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], timeToUint32(b.PermReload))
 	binary.LittleEndian.PutUint32(ret[PosOfGid:PosOfGid+4], uint32(b.Gid))
 
 	if len(b.Next) == 2 {
@@ -348,14 +348,14 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint32(ret[PosOfNuser:PosOfNuser+4], uint32(b.Nuser))
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
-	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], timeToUint32(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
 	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
 	ret[PosOfPostLimitBadPost] = b.PostLimitBadPost
-	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], uint32(b.SRexpire.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], timeToUint32(b.SRexpire))
 
 	return ret, nil
 
diff --git a/pttbbs/encoding.go b/pttbbs/encoding.go
index 80d9ca4..57d708a 100644
--- a/pttbbs/encoding.go
+++ b/pttbbs/encoding.go
@@ -1,6 +1,8 @@
 package pttbbs
 
 import (
+	"time"
+
 	"github.com/Ptt-official-app/go-bbs"
 )
 
@@ -20,3 +22,11 @@ func newStringFormCString(cs []byte) string {
 func newStringFormBig5UAOCString(cs []byte) string {
 	return bbs.Big5ToUtf8(bbs.CstrToBytes(cs))
 }
+
+// timeToUint32 returns the 4 bytes timestamp (time4_t) of t, 0 if t is not set
+func timeToUint32(t time.Time) uint32 {
+	if t.IsZero() {
+		return 0
+	}
+	return uint32(t.Unix())
+}
diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..a4af3a9 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -451,7 +451,7 @@ func (favbi *FavBoardItem) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.BoardID)
 	c += size
 
-	binary.LittleEndian.PutUint32(ret[c:c+size], uint32(favbi.LastVisit.Unix()))
+	binary.LittleEndian.PutUint32(ret[c:c+size], timeToUint32(favbi.LastVisit))
 	c += size
 
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.Attr)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 2292b50..109984a 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -230,7 +230,7 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	ret := make([]byte, 128)
 
 	copy(ret[PosOfFileHeaderFilename:PosOfFileHeaderFilename+FileNameLength], f.filename)
-	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], uint32(f.modified.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], timeToUint32(f.modified))
 
 	ret[PosOfFileHeaderRecommend] = byte(f.recommend)
 	copy(ret[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], f.owner)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index ed53623..091c699 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -315,8 +315,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdUserLevel:PosOfPasswdUserLevel+4], u.UserLevel)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumLoginDays:PosOfPasswdNumLoginDays+4], u.numLoginDays)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumPosts:PosOfPasswdNumPosts+4], u.numPosts)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], uint32(u.firstLogin.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], uint32(u.lastLogin.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], timeToUint32(u.firstLogin))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], timeToUint32(u.lastLogin))
 	copy(ret[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1], utf8ToBig5UAOString(u.lastHost))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdMoney:PosOfPasswdMoney+4], uint32(u.money))
 
@@ -343,11 +343,11 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], timeToUint32(u.LastSeen))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], timeToUint32(u.TimeSetAngel))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], timeToUint32(u.TimePlayAngel))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], uint32(u.LastSong.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], timeToUint32(u.LastSong))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLoginView:PosOfPasswdLoginView+4], u.LoginView)
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdLawCounter:PosOfPasswdLawCounter+2], u.ViolateLaw)
 
@@ -378,8 +378,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], uint32(u.TimeRemoveBadPost.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], uint32(u.TimeViolateLaw.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], timeToUint32(u.TimeRemoveBadPost))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], timeToUint32(u.TimeViolateLaw))
 
 	return ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index ea25cc7..ef5c193 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -322,7 +322,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Win:PosOfUserInfoConn6Win+2], u.Conn6.Win)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], uint32(u.LastAct.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], timeToUint32(u.LastAct))
 	ret[PosOfUserInfoAlerts] = u.Alerts
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Lose:PosOfUserInfoConn6Lose+2], u.Conn6.Lose)
 
@@ -365,7 +365,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWithMe:PosOfUserInfoWithMe+4], u.WithMe)
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoBrcID:PosOfUserInfoBrcID+4], u.brcID)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], uint32(u.wbTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], timeToUint32(u.wbTime))
 
 	return ret
 
-- 
2.43.0


From 25722de3868db792bd8c8e961c61c3c66af64114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 07/40] fix: reading a record file looped forever on a read
 error and invented a record from a partial one

---
 formosabbs/file.go |  9 ++++++---
 pttbbs/board.go    |  9 ++++++---
 pttbbs/file.go     |  9 ++++++---
 pttbbs/passwd.go   |  9 ++++++---
 pttbbs/userinfo.go | 10 +++++-----
 5 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 907083d..1da9faf 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -50,11 +50,14 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 248)
-		_, err := file.Read(hdr)
-		// log.Println(len, err)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, hdr)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing partial record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 2580b1d..6cc6c6d 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -179,11 +179,14 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 
 	for {
 		hdr := make([]byte, BoardHeaderRecordLength)
-		_, err := file.Read(hdr)
-		// log.Println(len, err)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, hdr)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing partial record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalBoardHeader(hdr)
 		if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 109984a..0f93db4 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -112,11 +112,14 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 128)
-		_, err := file.Read(hdr)
-		// log.Println(len, err)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, hdr)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing partial record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 091c699..a813485 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -211,11 +211,14 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 
 	for {
 		buf := make([]byte, 512)
-		_, err := file.Read(buf)
-		// log.Println(len, buf, err)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, buf)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing partial record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalUserec(buf)
 		if err != nil {
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index ef5c193..e4e11ff 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -148,12 +148,12 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 
 	for {
 		buf := make([]byte, 3484)
-
-		_, err := file.Read(buf)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, buf)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing partial record is not a record
 			break
-		} else if err != nil {
-			log.Println(err)
+		}
+		if err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From a74bc745c6baf4225ad4231f05a24a3cf714c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 08/40] fix: files stayed open after reading records and after
 failed mappings

---
 cache/mmap.go          | 3 +++
 formosabbs/file.go     | 1 +
 pttbbs/bad_logins.go   | 1 +
 pttbbs/board.go        | 1 +
 pttbbs/login_recent.go | 1 +
 pttbbs/passwd.go       | 1 +
 pttbbs/userinfo.go     | 1 +
 7 files changed, 9 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index e096595..edf06da 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -20,6 +20,7 @@ func CreateMmap(filePath string, size int64) (*Mmap, error) {
 	}
 	err = f.Truncate(size)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("truncate error: %v", err)
 	}
 
@@ -45,6 +46,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	stat, err := f.Stat()
 	if err != nil {
 		// fmt.Println("stat error", err)
+		f.Close()
 		return nil, fmt.Errorf("stat error: %w", err)
 	}
 
@@ -54,6 +56,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	b, err := openMmap(fd, size)
 	if err != nil {
 		fmt.Println("mmap error", err)
+		f.Close()
 		return nil, fmt.Errorf("mmap error: %v", err)
 	}
 
diff --git a/formosabbs/file.go b/formosabbs/file.go
index 1da9faf..2c45096 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -45,6 +45,7 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..f817d58 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 6cc6c6d..abc4368 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,6 +174,7 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*BoardHeader{}
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..0724746 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index a813485..b1ff467 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -206,6 +206,7 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index e4e11ff..4d5386a 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,6 +143,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
-- 
2.43.0


From 80658bcc2e259d7f08e8800ddac01da6123ea235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 09/40] fix: choosing an article file name looped forever when
 the file can not be created

---
 pttbbs/pttbbs_write_article_connector.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..709deeb 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,9 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return "", err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -98,11 +101,10 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	}
 
 	filename := ""
-	dtime := time.Now().Unix()
-	rand.Seed(dtime)
 
 	var f *os.File
 	for {
+		dtime := time.Now().Unix()
 		filename = fmt.Sprintf("M.%d.A.%3.3X", dtime, rand.Intn(0x1000))
 		path, err := c.GetBoardArticleFilePath(boardID, filename)
 		if err != nil {
@@ -113,6 +115,9 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return nil, err
+		}
 	}
 	defer f.Close()
 
-- 
2.43.0


From ff66bc9bd23e94f47202e51d6bef39e16a652af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 10/40] fix: writing an article body left the tail of a longer
 previous body

---
 pttbbs/pttbbs_write_article_connector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index 709deeb..a6d5777 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -66,6 +66,9 @@ func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 	}
 	defer filelock.Unlock(f)
 
+	if err := f.Truncate(0); err != nil {
+		return err
+	}
 	if _, err := f.Write(content); err != nil {
 		return err
 	}
-- 
2.43.0


From 772d675cb649f2ffeadde0de21b3a7297b73eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 11/40] fix: board record writers kept the lock on errors and
 removal ignored a failed truncate

---
 pttbbs/board.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index abc4368..d9711b2 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -215,6 +215,7 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 		// File is lock
 		return err
 	}
+	defer filelock.Unlock(f)
 
 	data, err := newBoardHeader.MarshalBinary()
 	if err != nil {
@@ -225,7 +226,6 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 		return err
 	}
 
-	filelock.Unlock(f)
 	return nil
 }
 
@@ -242,6 +242,7 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		// File is lock
 		return err
 	}
+	defer filelock.Unlock(fi)
 
 	fo, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
@@ -268,9 +269,7 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
-	filelock.Unlock(fi)
-	return nil
+	return fo.Truncate(size)
 
 }
 
-- 
2.43.0


From 4a3b8bf5d3fafe293e922b918fb96e705b14126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 12/40] fix: updating or removing a record that does not exist
 padded the file with zero records

---
 pttbbs/board.go | 8 ++++++++
 pttbbs/file.go  | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index d9711b2..f4f11d8 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -244,6 +244,14 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 	}
 	defer filelock.Unlock(fi)
 
+	stat, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if index < 0 || int64(index) >= stat.Size()/BoardHeaderRecordLength {
+		return fmt.Errorf("board record %d not found", index)
+	}
+
 	fo, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("fo.OpenFile error: %v", err)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 0f93db4..22d1df2 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -28,6 +28,7 @@ package pttbbs
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -183,6 +184,14 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 		return err
 	}
 
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if uint64(index) >= uint64(stat.Size()/128) {
+		return fmt.Errorf("article record %d not found", index)
+	}
+
 	_, err = f.Seek(int64(index)*128, os.SEEK_SET)
 	if err != nil {
 		return err
-- 
2.43.0


From 0573d86617ec8b09d19387dad91c88c26f2e0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 13/40] fix: empty ids crashed and ids with separators escaped
 the BBS home

---
 pttbbs/path.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..89054a8 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,26 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+// ErrInvalidPathName is returned for an id or filename that can not name exactly one file or
+// directory.
+var ErrInvalidPathName = errors.New("invalid id or filename")
+
+// checkPathNames checks ids and filenames come from outside, each of them should be the name of
+// one file or directory, so it can not be empty or lead to other directory.
+func checkPathNames(names ...string) error {
+	for _, name := range names {
+		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\x00") {
+			return fmt.Errorf("%w: %q", ErrInvalidPathName, name)
+		}
+	}
+	return nil
+}
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +52,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if err := checkPathNames(userID); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if err := checkPathNames(userID, draftID); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +71,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if err := checkPathNames(userID, filename); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if err := checkPathNames(userID); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if err := checkPathNames(boardID); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +98,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if err := checkPathNames(boardID, filename); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,12 +109,24 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if err := checkPathNames(boardID); err != nil {
+		return "", err
+	}
+	if err := checkPathNames(path...); err != nil {
+		return "", err
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if err := checkPathNames(boardID, filename); err != nil {
+		return "", err
+	}
+	if err := checkPathNames(path...); err != nil {
+		return "", err
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
@@ -88,5 +134,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if err := checkPathNames(boardID); err != nil {
+		return "", err
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From 2881d989b0031b3d754efc98edb34367a581b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 14/40] fix: operations the driver does not support panicked
 instead of returning an error

---
 bbs.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/bbs.go b/bbs.go
index 6db7b31..547d9aa 100644
--- a/bbs.go
+++ b/bbs.go
@@ -420,11 +420,20 @@ func (db *DB) ReadBoardTreasureFile(boardID string, treasuresID []string, filena
 }
 
 func (db *DB) NewBoardRecord(args map[string]interface{}) (BoardRecord, error) {
-	return db.connector.(WriteBoardConnector).NewBoardRecord(args)
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+	return c.NewBoardRecord(args)
 }
 
 func (db *DB) AddBoardRecord(brd BoardRecord) error {
 
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+
 	path, err := db.connector.GetBoardRecordsPath()
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -432,7 +441,7 @@ func (db *DB) AddBoardRecord(brd BoardRecord) error {
 	}
 	log.Println("path:", path)
 
-	err = db.connector.(WriteBoardConnector).AddBoardRecordFileRecord(path, brd)
+	err = c.AddBoardRecordFileRecord(path, brd)
 	if err != nil {
 		log.Println("bbs: AddBoardRecordFileRecord error:", err)
 		return err
@@ -459,16 +468,26 @@ func (db *DB) RemoveBoardRecord(index uint) error {
 // CreateArticleRecord returns new ArticleRecord with new filename in boardID and owner, date and title.
 // This method will find a usable filename in board and occupy it.
 func (db *DB) CreateArticleRecord(boardID, owner, date, title string) (ArticleRecord, error) {
-	filename, err := db.connector.(WriteArticleConnector).CreateBoardArticleFilename(boardID)
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
+	filename, err := c.CreateBoardArticleFilename(boardID)
 	if err != nil {
 		return nil, err
 	}
-	return db.connector.(WriteArticleConnector).NewArticleRecord(filename, owner, date, title)
+	return c.NewArticleRecord(filename, owner, date, title)
 }
 
 // AddArticleRecordFileRecord append article ArticleRecord to boardID
 func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord) error {
 
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
 	path, err := db.connector.GetBoardArticleRecordsPath(boardID)
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -476,7 +495,7 @@ func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord)
 	}
 	log.Println("path:", path)
 
-	return db.connector.(WriteArticleConnector).AddArticleRecordFileRecord(path, article)
+	return c.AddArticleRecordFileRecord(path, article)
 }
 
 // WriteBoardArticleFile writes content into filename in boardID
@@ -699,14 +718,19 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return nil, err
 	}
 	log.Println("path:", path)
 
-	raw, err := db.connector.(UserDraftConnector).ReadUserDraft(path)
+	raw, err := c.ReadUserDraft(path)
 	if err != nil {
 		return nil, err
 	}
@@ -716,23 +740,34 @@ func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
 func (db *DB) DeleteUserDraft(userID, draftID string) error {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 	log.Println("path:", path)
 
-	return db.connector.(UserDraftConnector).DeleteUserDraft(path)
+	return c.DeleteUserDraft(path)
 }
 
 func (db *DB) WriteUserDraft(userID, draftID string, draftContent UserDraft) error {
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 
 	log.Println("path:", path)
-	return db.connector.(UserDraftConnector).WriteUserDraft(path, draftContent.Raw())
+	return c.WriteUserDraft(path, draftContent.Raw())
 }
-- 
2.43.0


From 88f21a7d8621d6d9853148c679fbc81839d72c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 15/40] fix: the driver registry was accessed without a lock

---
 bbs.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index 547d9aa..2a5aa62 100644
--- a/bbs.go
+++ b/bbs.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -267,17 +268,23 @@ type UserDraftConnector interface {
 	WriteUserDraft(name string, draft []byte) error
 }
 
-var drivers = make(map[string]Connector)
+var (
+	driversMu sync.RWMutex
+	drivers   = make(map[string]Connector)
+)
 
 func Register(drivername string, connector Connector) {
-	// TODO: Mutex
+	driversMu.Lock()
+	defer driversMu.Unlock()
 	drivers[drivername] = connector
 }
 
 // Open opan a
 func Open(drivername string, dataSourceName string) (*DB, error) {
 
+	driversMu.RLock()
 	c, ok := drivers[drivername]
+	driversMu.RUnlock()
 	if !ok {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
-- 
2.43.0


From fac02279bb081ddb7a611627e84638a845d0674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 16/40] fix: listing articles or comments of a user failed on
 unused board slots

---
 bbs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index 2a5aa62..decc9d3 100644
--- a/bbs.go
+++ b/bbs.go
@@ -573,7 +573,8 @@ func (db *DB) GetUserArticleRecordFile(userID string) ([]UserArticleRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// board id is empty in unused board slots
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
@@ -640,7 +641,8 @@ func (db *DB) GetUserCommentRecordFile(userID string) ([]UserCommentRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// board id is empty in unused board slots
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
-- 
2.43.0


From 2ea9efff2893bf0b3d89f3ea8d5b9d11ce5c2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 17/40] fix: listing comments silently stopped at the first
 very long line

---
 bbs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bbs.go b/bbs.go
index decc9d3..f0ce2db 100644
--- a/bbs.go
+++ b/bbs.go
@@ -703,6 +703,8 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 	floorCnt := uint32(1)
 	scanner := bufio.NewScanner(strings.NewReader(string(content)))
+	// a line can be as long as the article
+	scanner.Buffer(nil, len(content)+1)
 	for scanner.Scan() {
 		l := FilterStringANSI(scanner.Text())
 		cr, err := NewUserCommentRecord(floorCnt, l, boardID, ar)
@@ -717,6 +719,10 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 		crs = append(crs, cr)
 		floorCnt++
 	}
+	if err := scanner.Err(); err != nil {
+		log.Println("bbs: scan article error:", err)
+		return nil, err
+	}
 
 	if len(crs) > 1 {
 		log.Println(content)
-- 
2.43.0


From cccd15866fe94793a45b06a0083782e8fcebb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 18/40] fix: building a treasure path wrote into the spare
 capacity of the caller's slice

---
 pttbbs/path.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 89054a8..1644b6b 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -115,8 +115,10 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 	if err := checkPathNames(path...); err != nil {
 		return "", err
 	}
-	path = append(path, "")
-	subPath := strings.Join(path, "/")
+	subPath := ""
+	for _, name := range path {
+		subPath += name + "/"
+	}
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
@@ -127,8 +129,10 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 	if err := checkPathNames(path...); err != nil {
 		return "", err
 	}
-	path = append(path, "")
-	subPath := strings.Join(path, "/")
+	subPath := ""
+	for _, name := range path {
+		subPath += name + "/"
+	}
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
 
-- 
2.43.0


From 305e41a4e56077ed98de73bfe772f6579b126d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 19/40] fix: verifying a password against a short or non-ascii
 hash panicked

---
 crypt/bbscrypt.go | 4 ++++
 pttbbs/passwd.go  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..0800357 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,10 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	// the first 2 bytes of salt should be 7-bit characters
+	if len(salt) < 2 || int(salt[0]) >= len(conSalt) || int(salt[1]) >= len(conSalt) {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index b1ff467..c1a6391 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,7 +154,7 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
-	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
+	res, err := crypt.Fcrypt([]byte(password), []byte(u.password))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 594226441382e1a0721bcbe0f9c128d735bc0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 20/40] fix: short login attempt lines panicked, hosts lost
 leading ? and @, scan errors were dropped

---
 pttbbs/bad_logins.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index f817d58..e877ffd 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -103,6 +103,9 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
@@ -110,6 +113,11 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
 
+	// UserID and its mark are optional, but all of lines have time and FromHost
+	if !strings.HasPrefix(str, "[") && len(str) < 1+UserIDLength {
+		return ErrInvalidLoginsBadFormat
+	}
+
 	idx := 0 // current index of str
 	// Handle Success and UserID
 	switch str[idx] {
@@ -133,6 +141,10 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	}
 	l.UserID = strings.TrimSpace(l.UserID)
 	// Now idx points to the start of time
+	// and it is followed by a space and FromHost
+	if len(str) < idx+len(loginStartTimeFormatString)+1 || str[idx+len(loginStartTimeFormatString)] != ' ' {
+		return ErrInvalidLoginsBadFormat
+	}
 	// TODO: do we need to consider timezone? This Parse returns UTC
 	t, err := time.Parse(loginStartTimeFormatString, str[idx:idx+len(loginStartTimeFormatString)])
 	if err != nil {
@@ -141,7 +153,7 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	l.LoginStartTime = t
 	idx += len(loginStartTimeFormatString)
 
-	l.FromHost = strings.TrimLeft(str[idx+1:], fromHostPrefix)
+	l.FromHost = strings.TrimPrefix(str[idx+1:], fromHostPrefix)
 	return nil
 }
 
-- 
2.43.0


From 100c90978a3477336e06905af424dba4e4fb6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 21/40] fix: login attempts of one-character user ids were
 encoded without the user id

---
 pttbbs/bad_logins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index e877ffd..438a86f 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -188,5 +188,5 @@ func (l *LoginAttempt) MarshalText() ([]byte, error) {
 // The difference between logins.bad between under BBSHOME and under User Dir is whether it contains
 // UserID
 func (l *LoginAttempt) IsUnderBbsHome() bool {
-	return len(l.UserID) > 1
+	return len(l.UserID) > 0
 }
-- 
2.43.0


From ff6407db306d32fc767d3560a75bce06f7a1dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 22/40] fix: a read error in a recent login file terminated the
 process

---
 pttbbs/login_recent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 0724746..815aaa7 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -52,7 +52,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From b23a2aeeb5138d11a0121378a76cf80b3b23d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 23/40] fix: malformed favorites and favorites of removed
 boards panicked

---
 pttbbs/fav.go    | 23 ++++++++++++++++++-----
 pttbbs/pttbbs.go |  5 ++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index a4af3a9..217027a 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -90,7 +90,10 @@ func (favi *FavItem) BoardID() string {
 	if favi.FavType != FavItemTypeBoard {
 		return ""
 	}
-	return favi.Item.(*FavBoardItem).boardID
+	if b := favi.GetBoard(); b != nil {
+		return b.boardID
+	}
+	return ""
 }
 
 func (favi *FavItem) Title() string {
@@ -98,7 +101,9 @@ func (favi *FavItem) Title() string {
 		return "------------------------------------------"
 	}
 	if favi.FavType == FavItemTypeFolder {
-		return favi.Item.(*FavFolderItem).Title
+		if f := favi.GetFolder(); f != nil {
+			return f.Title
+		}
 	}
 	return ""
 }
@@ -120,7 +125,11 @@ func (favi *FavItem) Records() []bbs.FavoriteRecord {
 	if favi.FavType != FavItemTypeFolder {
 		return nil
 	}
-	rec := favi.Item.(*FavFolderItem).ThisFolder.FavItems
+	f := favi.GetFolder()
+	if f == nil || f.ThisFolder == nil {
+		return nil
+	}
+	rec := f.ThisFolder.FavItems
 	ret := make([]bbs.FavoriteRecord, len(rec))
 	for i, v := range rec {
 		ret[i] = v
@@ -204,6 +213,9 @@ func OpenFavFile(filename string) (*FavFile, error) {
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
 	ret := &FavFile{}
 	size := 2
+	if len(data) < size {
+		return nil, ErrIndexOutOfBound
+	}
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
 
 	var err error
@@ -246,13 +258,14 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	// itemCount may not fit in DataTail
+	itemCount := int(ret.NBoards) + int(ret.NLines) + int(ret.NFolders)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..673ffbb 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -85,7 +85,10 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 		switch item.Item.(type) {
 		case *FavBoardItem:
 			bid := item.Item.(*FavBoardItem).BoardID - 1
-			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
+			// the board may have been removed
+			if int64(bid) < int64(len(brd)) {
+				item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
+			}
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
 		case *FavLineItem:
-- 
2.43.0


From 6af6f8e149e7912a7068cb1b48c0e82e3f335a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 24/40] fix: decoding a record from too short data panicked

---
 formosabbs/file.go | 4 ++++
 pttbbs/board.go    | 3 +++
 pttbbs/file.go     | 3 +++
 pttbbs/passwd.go   | 3 +++
 pttbbs/userinfo.go | 4 ++++
 5 files changed, 17 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 2c45096..8c03254 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -4,6 +4,7 @@ import (
 	"github.com/Ptt-official-app/go-bbs"
 
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -75,6 +76,9 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
+	if len(data) < 248 {
+		return nil, fmt.Errorf("article record too short: %d bytes", len(data))
+	}
 	ret := FileHeader{}
 	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index f4f11d8..2beaec3 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -282,6 +282,9 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 }
 
 func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
+	if len(data) < BoardHeaderRecordLength {
+		return nil, fmt.Errorf("board record too short: %d bytes", len(data))
+	}
 	ret := BoardHeader{}
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 22d1df2..f16fcf1 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -209,6 +209,9 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
+	if len(data) < 128 {
+		return nil, fmt.Errorf("article record too short: %d bytes", len(data))
+	}
 	ret := FileHeader{}
 	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index c1a6391..9f6b04f 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -235,6 +235,9 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 }
 
 func UnmarshalUserec(data []byte) (*Userec, error) {
+	if len(data) < 512 {
+		return nil, fmt.Errorf("user record too short: %d bytes", len(data))
+	}
 	user := &Userec{}
 	user.Version = binary.LittleEndian.Uint32(data[PosOfPasswdVersion : PosOfPasswdVersion+4])
 	user.userID = newStringFormCString(data[PosOfPasswdUserID : PosOfPasswdUserID+IDLength+1])
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 4d5386a..5b37991 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -168,6 +168,10 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 
 func UnmarshalUserInfo(data []byte) *UserInfoCache {
 	cache := &UserInfoCache{}
+	if len(data) < 3484 {
+		// too short to be a record
+		return cache
+	}
 
 	cache.uid = int32(binary.LittleEndian.Uint32(data[PosOfUserInfoUID : PosOfUserInfoUID+4]))
 	cache.pid = int32(binary.LittleEndian.Uint32(data[PosOfUserInfoPID : PosOfUserInfoPID+4]))
-- 
2.43.0


From ba999f70f11b51731df2a8d1845be17a1f90fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 25/40] fix: messages of a decoded online user still pointed
 into the shared memory

---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 5b37991..27b16b5 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -206,7 +206,7 @@ func UnmarshalUserInfo(data []byte) *UserInfoCache {
 
 	for idx := range cache.Msgs {
 		// Todo: replace it with the Unmarshal for MessageQueueCache
-		cache.Msgs[idx] = data[PosOfUserInfoMsgs+100*idx : PosOfUserInfoMsgs+100*idx+100]
+		cache.Msgs[idx] = append(MessageQueueCache{}, data[PosOfUserInfoMsgs+100*idx:PosOfUserInfoMsgs+100*idx+100]...)
 	}
 
 	cache.Birth = (data[PosOfUserInfoBirth] != 0)
-- 
2.43.0


From c57d713b66722b0157bd3a9c883e5a9d17687afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 26/40] fix: shared memory cache panicked on unset alignment,
 invalid settings and out of range uids

---
 pttbbs/cache.go | 57 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..8cf9514 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -106,12 +106,11 @@ func (c *Cache) caculatePos() {
 	c.posOfUserID = c.posOfSize + 4
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
-	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	// Align, AlignmentBytes is 0 when it is not set
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
-	fmt.Println("c.posOfNextInHash", c.posOfNextInHash)
 	c.posOfMoney = 4 + c.posOfNextInHash + c.MaxUsers*4 // + gap_2
 	if c.UseCoolDown {
 		c.posOfCooldownTime = 4 + c.posOfMoney + c.MaxUsers*4    // + gap_3
@@ -124,6 +123,7 @@ func (c *Cache) caculatePos() {
 	c.posOfUserLoaded = c.posOfUserNumber + 4
 
 	c.posOfUserInfo = c.posOfUserLoaded + 4
+	c.lenOfUserInfo = PosOfUserInfoWBTime + 4
 
 	// TODO: other pos value
 	// 	c.posOfCooldownTime int
@@ -292,6 +292,10 @@ func (c *Cache) caculatePos() {
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string, settings *MemoryMappingSetting) (*Cache, error) {
 
+	if settings == nil || settings.AlignmentBytes < 0 || settings.MaxUsers < 0 || settings.IDLen < 0 || settings.HashBits < 0 {
+		return nil, fmt.Errorf("invalid memory mapping setting: %v", settings)
+	}
+
 	c, err := cache.NewCache(connectionString)
 	if err != nil {
 		return nil, fmt.Errorf("cache open error: %v", err)
@@ -305,29 +309,52 @@ func NewCache(connectionString string, settings *MemoryMappingSetting) (*Cache,
 	return &ret, nil
 }
 
+// element returns the n-th element of an array which starts at pos and has elements of size bytes,
+// it returns nil when the element is not in the cache.
+func (c *Cache) element(pos, size, n int) []byte {
+	buf := c.Bytes()
+	if pos < 0 || pos > len(buf) || size <= 0 || n < 0 || n >= (len(buf)-pos)/size {
+		return nil
+	}
+	s := pos + size*n
+	return buf[s : s+size]
+}
+
 // Version returns cache (SHM) version of pttbbs, it will be 4842 on pttbbs version
-// 4d56e77 (2009/09 ~ )
+// 4d56e77 (2009/09 ~ ), 0 if the cache has no version.
 func (c *Cache) Version() uint32 {
 	// Should be 4842
-	return binary.LittleEndian.Uint32(c.Bytes()[c.posOfVersion : c.posOfVersion+4])
+	b := c.element(c.posOfVersion, 4, 0)
+	if b == nil {
+		return 0
+	}
+	return binary.LittleEndian.Uint32(b)
 }
 
 // UserID returns userId string with specific uid, such as "SYSOP",
-// uid means the index in PASSWD file, start with 0.
+// uid means the index in PASSWD file, start with 0. It returns empty string if uid is out of range.
 func (c *Cache) UserID(uid int) string {
-	// TODO: Check if it is out of range
-	s := c.posOfUserID + (c.IDLen+1)*uid
-	return string(bytes.Split(c.Bytes()[s:s+c.IDLen+1], []byte("\x00"))[0])
+	if uid >= c.MaxUsers {
+		return ""
+	}
+	return string(bytes.Split(c.element(c.posOfUserID, c.IDLen+1, uid), []byte("\x00"))[0])
 }
 
-// Money returns the money user have with specific uid, uid start with 0
+// Money returns the money user have with specific uid, uid start with 0. It returns 0 if uid is
+// out of range.
 func (c *Cache) Money(uid int) int32 {
-	// TODO: Check if it is out of range
-	s := c.posOfMoney + 4*uid
-	return int32(binary.LittleEndian.Uint32(c.Bytes()[s : s+4]))
+	if uid >= c.MaxUsers {
+		return 0
+	}
+	b := c.element(c.posOfMoney, 4, uid)
+	if b == nil {
+		return 0
+	}
+	return int32(binary.LittleEndian.Uint32(b))
 }
 
+// UserInfo returns the online user record in specific position, start with 0. It returns an empty
+// record if uid is out of range.
 func (c *Cache) UserInfo(uid int) *UserInfoCache {
-	// TODO: Check if it is out of range
-	return UnmarshalUserInfo(c.Bytes()[c.posOfUserInfo+c.lenOfUserInfo*uid : c.posOfUserInfo+c.lenOfUserInfo*(uid+1)])
+	return UnmarshalUserInfo(c.element(c.posOfUserInfo, c.lenOfUserInfo, uid))
 }
-- 
2.43.0


From 74f7f6d6d5189eadb830571a72cef6bea994bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 27/40] fix: unreadable drafts, favorites and article indexes
 were reported as empty

---
 bbs.go           | 3 ++-
 pttbbs/draft.go  | 5 +++--
 pttbbs/pttbbs.go | 5 ++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/bbs.go b/bbs.go
index f0ce2db..3163c43 100644
--- a/bbs.go
+++ b/bbs.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"os"
 	"strings"
 	"sync"
 	"time"
@@ -365,7 +366,7 @@ func (db *DB) ReadBoardArticleRecordsFile(boardID string) ([]ArticleRecord, erro
 
 	recs, err := db.connector.ReadArticleRecordsFile(path)
 	if err != nil {
-		if strings.Contains(err.Error(), "no such file or directory") {
+		if errors.Is(err, os.ErrNotExist) {
 			return []ArticleRecord{}, nil
 		}
 		log.Println("bbs: ReadArticleRecordsFile error:", err)
diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..5a77626 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -6,10 +6,11 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); err != nil {
+	draft, err := ioutil.ReadFile(filename)
+	if os.IsNotExist(err) {
 		return []byte{}, nil
 	}
-	return ioutil.ReadFile(filename)
+	return draft, err
 }
 
 func (c *Connector) DeleteUserDraft(filename string) error {
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 673ffbb..d2817a7 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -54,11 +54,10 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 }
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
-	if _, err := os.Stat(filename); err != nil {
+	rec, err := OpenFavFile(filename)
+	if os.IsNotExist(err) {
 		return []bbs.FavoriteRecord{}, nil
 	}
-
-	rec, err := OpenFavFile(filename)
 	if err != nil {
 		return nil, fmt.Errorf("pttbbs: OpenFavFile error: %w", err)
 	}
-- 
2.43.0


From 0795b40b561181ca60502e9d9e0885d74897bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 28/40] fix: appending to an article did not lock the file

---
 pttbbs/pttbss_append_new_line.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbss_append_new_line.go b/pttbbs/pttbss_append_new_line.go
index c2106c2..da112e3 100644
--- a/pttbbs/pttbss_append_new_line.go
+++ b/pttbbs/pttbss_append_new_line.go
@@ -5,17 +5,23 @@ import (
 	"os"
 
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 )
 
 func (c *Connector) AppendBoardArticleFile(filename string, content []byte) error {
-	// TODO: Lockfile
-
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Cannot open file %s, err: %s", filename, err)
 	}
 	defer f.Close()
 
+	err = filelock.Lock(f)
+	if err != nil {
+		// File is locked
+		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
+	}
+	defer filelock.Unlock(f)
+
 	_, err = f.Write(content)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
-- 
2.43.0


From d3200b4c6782356c421c0202d0b7993e3959501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 29/40] fix: encoding text to Big5 dropped everything after an
 unsupported character

---
 big5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big5.go b/big5.go
index 1ce4235..20ee416 100644
--- a/big5.go
+++ b/big5.go
@@ -20,12 +20,14 @@
 package bbs
 
 import (
+	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
 func Utf8ToBig5(input string) []byte {
-	utf8ToBig5 := traditionalchinese.Big5.NewEncoder()
+	// characters which are not in Big5 are replaced, the encoder stops at them otherwise
+	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
 	return big5
 }
-- 
2.43.0


From 13d66223a56da988d5c228d763dfa48678d1cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 30/40] fix: recommending an article often wrapped its score
 around

---
 pttbbs/file.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index f16fcf1..506e29c 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -81,8 +81,19 @@ func (f *FileHeader) SetFilename(newValue string) { f.filename = newValue }
 func (f *FileHeader) Modified() time.Time               { return f.modified }
 func (f *FileHeader) SetModified(newModified time.Time) { f.modified = newModified }
 
-func (f *FileHeader) Recommend() int           { return int(f.recommend) }
-func (f *FileHeader) AddRecommend(update int8) { f.recommend = f.recommend + update }
+func (f *FileHeader) Recommend() int { return int(f.recommend) }
+
+// AddRecommend adds update to recommend, which is kept between -MaxRecommends and MaxRecommends
+func (f *FileHeader) AddRecommend(update int8) {
+	recommend := int(f.recommend) + int(update)
+	if recommend > MaxRecommends {
+		recommend = MaxRecommends
+	}
+	if recommend < -MaxRecommends {
+		recommend = -MaxRecommends
+	}
+	f.recommend = int8(recommend)
+}
 
 func (f *FileHeader) Owner() string            { return f.owner }
 func (f *FileHeader) SetOwner(newValue string) { f.owner = newValue }
-- 
2.43.0


From 006977f1229c6472865b31c2b9f438d3e3034d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 31/40] fix: password hashes were written to the log of the
 sample server

---
 serverlet/route_token.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..652f4d7 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -38,7 +38,7 @@ func postToken(w http.ResponseWriter, r *http.Request) {
 
 	}
 
-	log.Println("found user:", userec)
+	log.Println("found user:", userec.UserID())
 	err = verifyPassword(userec, password)
 	if err != nil {
 
@@ -76,7 +76,6 @@ func findUserecByID(userid string) (bbs.UserRecord, error) {
 }
 
 func verifyPassword(userec bbs.UserRecord, password string) error {
-	log.Println("password", userec.HashedPassword())
 	return userec.VerifyPassword(password)
 }
 
-- 
2.43.0


From 874b1cc8eb7ba8669591e6a08d7477c63555a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 32/40] fix: access tokens expired in 1970

---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 652f4d7..630f342 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -91,7 +92,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From 2199b71a2dcb4b01f57a3dced0d32ed967d45b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 33/40] fix: the class handler panicked on a path without class
 id

---
 serverlet/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serverlet/main.go b/serverlet/main.go
index c463a6e..91ba715 100644
--- a/serverlet/main.go
+++ b/serverlet/main.go
@@ -70,7 +70,7 @@ func getClass(w http.ResponseWriter, r *http.Request) {
 	seg := strings.Split(r.URL.Path, "/")
 
 	classID := "0"
-	if len(seg) > 2 {
+	if len(seg) > 3 {
 		classID = seg[3]
 	}
 
-- 
2.43.0


From 8e75d625f288bc335778481289499371a3b24b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 34/40] fix: tool commands went on after a failed step and
 listed articles before their text was stored

---
 cmd/bbstool/articles.go | 16 ++++++++++++----
 cmd/bbstool/main.go     | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..ad45b4c 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -24,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
@@ -37,6 +42,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -68,6 +74,7 @@ func addBoardArticle() {
 	contentFile, inputFileOk := inputArgs["content_file"].(string)
 	if !contentOk && !inputFileOk {
 		fmt.Println("please provide content or content_file")
+		return
 	}
 
 	if !contentOk {
@@ -84,15 +91,15 @@ func addBoardArticle() {
 		fmt.Println("show_article_list: NewArticleRecord: ", err)
 		return
 	}
-	err = db.AddArticleRecordFileRecord(boardID, record)
+	err = db.WriteBoardArticleFile(boardID, record.Filename(), bbs.Utf8ToBig5(content))
 	if err != nil {
-		fmt.Println("AddArticleRecordFileRecord error:", err)
+		fmt.Println("WriteBoardArticleFile error: ", err)
 		return
 	}
 
-	err = db.WriteBoardArticleFile(boardID, record.Filename(), bbs.Utf8ToBig5(content))
+	err = db.AddArticleRecordFileRecord(boardID, record)
 	if err != nil {
-		fmt.Println("WriteBoardArticleFile error: ", err)
+		fmt.Println("AddArticleRecordFileRecord error:", err)
 		return
 	}
 	fmt.Printf("new filename: %s\n", record.Filename())
@@ -104,6 +111,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From 1c32ac9cc0b1d73c6222dd78289dc0605930e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 35/40] fix: the cache command never released the cache

---
 pttbbs/cmd/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/cmd/main.go b/pttbbs/cmd/main.go
index a93b67f..4f75a70 100644
--- a/pttbbs/cmd/main.go
+++ b/pttbbs/cmd/main.go
@@ -15,6 +15,7 @@ func main() {
 		fmt.Println("new cache err:", err)
 		return
 	}
+	defer c.Close()
 	fmt.Println("version", c.Version())
 	fmt.Println("userid, 0:", c.UserID(0))
 	fmt.Println("money, 0:", c.Money(0))
-- 
2.43.0


From bb13a74e0a9c1dcf79ef1b118d41d83ceabfb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 36/40] fix: open every database with its own connector, so a
 later Open does not change the home of earlier ones

---
 bbs.go           | 12 ++++++++++++
 pttbbs/pttbbs.go |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/bbs.go b/bbs.go
index 3163c43..3d24ff8 100644
--- a/bbs.go
+++ b/bbs.go
@@ -177,6 +177,13 @@ type Connector interface {
 	ReadBoardArticleFile(name string) ([]byte, error)
 }
 
+// ConnectorFactory is implemented by a driver which keeps the settings of an opened database, it
+// lets every opened database have its own connector.
+type ConnectorFactory interface {
+	// NewConnector should return a new connector of this driver, which is not opened yet.
+	NewConnector() Connector
+}
+
 // Driver which implement WriteBoardConnector supports modify board record file.
 type WriteBoardConnector interface {
 
@@ -290,6 +297,11 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	// the registered connector is shared, opening it would change the databases opened before
+	if f, ok := c.(ConnectorFactory); ok {
+		c = f.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index d2817a7..1999df1 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -17,6 +17,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector returns a new connector, so that each opened database has its own home.
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From d660e301471065197a1e3831f440ccf37c869216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 37/40] fix: online user fields ignored the padding of the
 structure, the records of the cache were read 3481 bytes apart instead of
 3484 and never found

---
 pttbbs/userinfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 27b16b5..04c7781 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,7 +58,7 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // padding
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
@@ -69,7 +69,7 @@ const (
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // padding
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From 2058390558ab4e49b6915cee39171d7909290657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 38/40] fix: report the whole text of a comment

A comment that contains a colon lost it (and got one at its end instead), and
one that contains its own time was cut there.
---
 user_comment_record.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..ef8e8f3 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -126,22 +126,9 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// the text is between the owner and the time, it may contain a colon or a time by itself
+	comment = strings.TrimPrefix(commentStr, owner+":")
+	comment = strings.TrimSpace(strings.TrimSuffix(comment, ctimeStr))
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From 282482a126f75dc476645c5e93835b92557a1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 39/40] fix: open the whole path of a connection string

The path was cut at its first colon, so that another file was opened.
---
 cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4550242..d634333 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,7 +14,8 @@ type Cache interface {
 // NewCache returns Cache (SHM) by connectionString, connectionString indicate the shm location
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string) (Cache, error) {
-	s := strings.Split(connectionString, ":")
+	// only the first colon ends the scheme, the path may contain others
+	s := strings.SplitN(connectionString, ":", 2)
 	if len(s) == 1 {
 		// default is mmap
 		return OpenMmap(s[0])
-- 
2.43.0


From 1457ad1420fa3a6d3082799c78b5e2f0e04fb5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:08 +0000
Subject: [PATCH 40/40] fix: the status of a shared memory segment is written
 past the end of its structure

---
 cache/systemvshm_linux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/systemvshm_linux.go b/cache/systemvshm_linux.go
index 1ab285e..2a61bd3 100644
--- a/cache/systemvshm_linux.go
+++ b/cache/systemvshm_linux.go
@@ -29,5 +29,5 @@ type ShmidDs struct {
 	ShmCpid     int32
 	ShmLpid     int32
 	ShmNattach  shmattT
-	shmInternal int64
+	shmInternal [2]uint64 // the kernel writes both, the length is 112 bytes
 }
-- 
2.43.0

